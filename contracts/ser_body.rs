//@include std_prelude.rs
//@source lib static-xml/src/lib.rs
//@source ser static-xml/src/ser/mod.rs
use xml::writer::XmlEvent;

#[verifier::external_trait_specification]
pub trait ExWrite { type ExternalTraitSpecificationFor: std::io::Write; }

/// Panics that are documented: they must be reachable only under this condition.
#[verifier::external_body]
pub fn vx_panic_if<T>(Ghost(c): Ghost<bool>) -> (r: T)
    requires c
    ensures false
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_fmt() -> (r: String) { unimplemented!() }
/// `e.to_string()`
#[verifier::external_body]
pub fn vx_to_string<T>(e: &T) -> (r: String) { unimplemented!() }
/// `s.to_owned()`
#[verifier::external_body]
pub fn vx_to_owned(s: &str) -> (r: String)
    ensures r@ == s@
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_is_empty(s: &str) -> (r: bool)
    ensures r == (s@.len() == 0)
{ unimplemented!() }
/// `s.starts_with("xml")`
#[verifier::external_body]
pub fn vx_starts_with(s: &str, p: &str) -> (r: bool)
    ensures p@ == "xml"@ ==> r == xmlish(s@)
{ unimplemented!() }
/// `==` of strings
#[verifier::external_body]
pub fn vx_get_or_insert<'b, T>(o: &'b mut Option<T>, v: T) -> (r: &'b mut T)
    ensures
        *final(o) == Some(*final(r)),
        *r == (match *old(o) { Some(x) => x, None => v }),
{ unimplemented!() }

/// What `format!` makes of a string and a number.
pub uninterp spec fn numbered(lit: Seq<char>, p: Seq<char>, i: int) -> Seq<char>;
#[verifier::external_body]
pub fn vx_fmt2(lit: &&str, p: &&str, i: &i32) -> (r: String)
    ensures r@ == numbered((*lit)@, (*p)@, *i as int)
{ unimplemented!() }
/// `{}{}`: different numbers give different strings; the first part is a prefix.
#[verifier::external_body]
pub broadcast proof fn axiom_numbered(p: Seq<char>, i: int, j: int)
    ensures
        #![trigger numbered("{}{}"@, p, i), numbered("{}{}"@, p, j)]
        numbered("{}{}"@, p, i) == numbered("{}{}"@, p, j) ==> i == j,
{ }
#[verifier::external_body]
pub broadcast proof fn axiom_numbered_len(p: Seq<char>, i: int)
    ensures
        #![trigger numbered("{}{}"@, p, i)]
        numbered("{}{}"@, p, i).len() > p.len(),
        numbered("{}{}"@, p, i).take(p.len() as int) == p,
        p.len() > 0 && !xmlish(p) && i >= 0 ==> !xmlish(numbered("{}{}"@, p, i)),
{ }
/// Two strings with the same characters are the same string.
#[verifier::external_body]
pub broadcast proof fn axiom_str_inj(a: &str, b: &str)
    ensures #[trigger] a@ == #[trigger] b@ ==> a == b
{ }

/// slice iteration with `find` and `map`/`collect`
impl<'a, T> VxIter<'a, T> {
    #[verifier::external_body]
    pub fn find<F: Fn(&&'a T) -> bool>(self, f: F) -> (r: Option<&'a T>)
        requires forall|i: int| 0 <= i < self.rest().len() ==> call_requires(f, (&&#[trigger] self.rest()[i],)),
        ensures
            match r {
                Some(x) => exists|i: int| 0 <= i < self.rest().len() && *x == #[trigger] self.rest()[i] && call_ensures(f, (&&self.rest()[i],), true),
                None => forall|i: int| 0 <= i < self.rest().len() ==> call_ensures(f, (&&#[trigger] self.rest()[i],), false),
            }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: Fn(&'a T) -> U>(self, f: F) -> (r: VxMapped<U>)
        requires forall|i: int| 0 <= i < self.rest().len() ==> call_requires(f, (&#[trigger] self.rest()[i],)),
        ensures
            r@.len() == self.rest().len(),
            forall|i: int| 0 <= i < self.rest().len() ==> call_ensures(f, (&self.rest()[i],), #[trigger] r@[i]),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(U)]
pub struct VxMapped<U> { u: U }
impl<U> VxMapped<U> {
    pub uninterp spec fn view(&self) -> Seq<U>;
    #[verifier::external_body]
    pub fn collect<C: VxFromSeq<U>>(self) -> (r: C)
        ensures r.items() == self@
    { unimplemented!() }
}
pub trait VxFromSeq<U>: Sized { spec fn items(&self) -> Seq<U>; }
impl<U> VxFromSeq<U> for Vec<U> { open spec fn items(&self) -> Seq<U> { self@ } }

//@include ser_model.rs

//@method iter vx_iter ref
//@method to_string vx_to_string ref
//@method to_owned vx_to_owned val
//@method starts_with vx_starts_with val args
//@method get_or_insert vx_get_or_insert mut args
//@call NamespacesBuilder::default vx_default_nb
//@call String::from_utf8 vx_from_utf8
/// `String::from_utf8` of what xml-rs wrote: assumed to be UTF-8.
#[verifier::external_body]
pub fn vx_from_utf8(v: Vec<u8>) -> (r: Result<String, VxUtf8Error>)
    ensures r matches Ok(s) && encode_utf8(s@) == v@
{ unimplemented!() }
#[verifier::external_body]
pub struct VxUtf8Error { x: () }
impl std::fmt::Debug for VxUtf8Error { #[verifier::external_body] fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
//@owner element start ElementBuilder ElementWriter

//@item lib struct ExpandedNameRef derive=Copy+Clone needs=Eq+PartialEq
impl<'a> PartialEq for ExpandedNameRef<'a> {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for ExpandedNameRef<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.key() == o.key() }
}

//@item ser struct Error needs=Clone
impl Clone for Error {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self
    { unimplemented!() }
}
//@item ser struct WrappedWriter attr=reject_recursive_types(W)
//@item ser struct ElementBuilder
//@item ser struct ElementBuilderInner
//@item ser struct ElementWriter
//@item ser struct ElementWriterInner
//@item ser struct NamespacesBuilder needs=Default
//@item ser struct Namespaces
//@item ser struct Namespace

/// The derived `Default`.
pub fn vx_default_nb<'a>() -> (r: NamespacesBuilder<'a>)
    ensures r.0@ == Map::<Key, Namespace<'a>>::empty()
{ NamespacesBuilder(BTreeMap::default()) }

// ------------------------------------------------------------------- errors
//@impl ser Error
//@fn ser duplicate_attribute props=C09
//@end
//@skip duplicate_element
//@skip missing_attribute
//@skip missing_element
//@skip missing_text
//@skip duplicate_mapping
//@endimpl

// ------------------------------------------------------------------- the writer
//@trait ser ErasedEventWriter
    spec fn st(&self) -> WS;
//@fn ser write props=C08
    ensures wrote(old(self).st(), final(self).st(), ev_of(event), r)
//@end
//@fn ser poison props=C08
    ensures final(self).st() == poison_with(old(self).st(), error.0@)
//@end
//@endimpl

//@impl ser "ErasedEventWriter for WrappedWriter<T0>"
    open spec fn st(&self) -> WS {
        WS { log: self.inner.log(), poison: match self.poison { Some(e) => Some(e.0@), None => None } }
    }
//@fn ser write props=C08
//@end
//@fn ser poison props=C08
//@end
//@endimpl

// ------------------------------------------------------------------- namespaces
proof fn lemma_empty()
    ensures
        ""@.len() == 0,
        forall|s: Seq<char>| s.len() == 0 ==> s == ""@,
        "xml"@.len() == 3, xmlish("xml"@),
{
    reveal_strlit(""); reveal_strlit("xml");
    assert forall|s: Seq<char>| s.len() == 0 implies s == ""@ by { assert(s =~= ""@); }
    assert("xml"@.take(3) =~= "xml"@);
}
/// Finitely many prefixes are taken.
proof fn lemma_numbered_count(prefix: Seq<char>, p: Map<Seq<char>, Seq<char>>, a: int, b: int)
    requires
        a <= b,
        forall|j: int| a <= j < b ==> #[trigger] p.contains_key(numbered("{}{}"@, prefix, j)),
    ensures b - a <= p.len()
    decreases b - a
{
    broadcast use axiom_numbered;
    if a < b {
        let k = numbered("{}{}"@, prefix, b - 1);
        assert(p.contains_key(k));
        let p2 = p.remove(k);
        assert forall|j: int| a <= j < b - 1 implies #[trigger] p2.contains_key(numbered("{}{}"@, prefix, j)) by {
            assert(p.contains_key(numbered("{}{}"@, prefix, j)));
        }
        lemma_numbered_count(prefix, p2, a, b - 1);
    }
}
/// Giving the unassigned entry `k` a free prefix.
proof fn lemma_assign(m: Map<Key, Namespace<'_>>, p: Map<Seq<char>, Seq<char>>, k: Key, q: Seq<char>, n: Namespace<'_>)
    requires
        bound_ok(m, p), m.contains_key(k), assigned(m[k]) is None,
        !p.contains_key(q), !xmlish(q), assigned(n) == Some(q), ns_view(n) == ns_view(m[k]),
    ensures
        bound_ok(m.insert(k, n), p.insert(q, k.1)),
        nb_view(m.insert(k, n)) =~= nb_view(m),
        m.insert(k, n).dom() =~= m.dom(),
{ }
proof fn lemma_assign_all(m: Map<Key, Namespace<'_>>, p: Map<Seq<char>, Seq<char>>, k: Key)
    requires bound_ok(m, p), m.contains_key(k), assigned(m[k]) is None
    ensures
        forall|q: Seq<char>, n: Namespace<'_>| !p.contains_key(q) && !xmlish(q) && assigned(n) == Some(q) && ns_view(n) == ns_view(m[k]) ==> {
            &&& #[trigger] bound_ok(m.insert(k, n), p.insert(q, k.1))
            &&& nb_view(m.insert(k, n)) == nb_view(m)
            &&& m.insert(k, n).dom() == m.dom()
        },
        m.insert(k, m[k]) == m,
{
    assert forall|q: Seq<char>, n: Namespace<'_>| !p.contains_key(q) && !xmlish(q) && assigned(n) == Some(q) && ns_view(n) == ns_view(m[k]) implies {
            &&& #[trigger] bound_ok(m.insert(k, n), p.insert(q, k.1))
            &&& nb_view(m.insert(k, n)) == nb_view(m)
            &&& m.insert(k, n).dom() == m.dom()
        } by { lemma_assign(m, p, k, q, n); }
    assert(m.insert(k, m[k]) =~= m);
}
/// `m1`, `p1`: after the required entries; `m`, `p`: after all.
proof fn lemma_finalized(m0: Map<Key, Namespace<'_>>, m1: Map<Key, Namespace<'_>>, p1: Map<Seq<char>, Seq<char>>, m: Map<Key, Namespace<'_>>, p: Map<Seq<char>, Seq<char>>)
    requires
        nb_inv(m0),
        m.dom() == m0.dom(), m1.dom() == m0.dom(), nb_view(m) == nb_view(m0), nb_view(m1) == nb_view(m0),
        bound_ok(m, p),
        forall|q: Seq<char>| #[trigger] p1.contains_key(q) ==> p.contains_key(q) && p[q] == p1[q],
        forall|q: Seq<char>| #[trigger] p1.contains_key(q) ==> m1[url_key(p1[q])].required,
        forall|k: Key| #[trigger] m1.contains_key(k) && m1[k].required ==> m[k] == m1[k] && required_done(m1[k], p1),
        forall|k: Key| #[trigger] m.contains_key(k) && !m[k].required ==> optional_done(m[k], p),
    ensures finalized(nb_view(m0), m, p)
{
    assert forall|k: Key| #[trigger] m.contains_key(k) implies m0.contains_key(k) && m1.contains_key(k) && ns_view(m[k]) == ns_view(m0[k]) && ns_view(m1[k]) == ns_view(m0[k]) by {
        assert(m.dom().contains(k)); assert(m0.dom().contains(k)); assert(m1.dom().contains(k));
        assert(nb_view(m)[k] == ns_view(m[k])); assert(nb_view(m0)[k] == ns_view(m0[k])); assert(nb_view(m1)[k] == ns_view(m1[k]));
    }
    assert forall|k: Key| #[trigger] m.contains_key(k) && assigned(m[k]) != Some(m[k].requested_prefix@)
        && !(m[k].needs_prefix && m[k].requested_prefix@.len() == 0)
        implies p.contains_key(m[k].requested_prefix@)
            && (m[k].required ==> m[url_key(p[m[k].requested_prefix@])].required) by {
        assert(m0.contains_key(k));
        if m[k].required {
            let q = m[k].requested_prefix@;
            assert(m1.contains_key(k));
            assert(m[k] == m1[k]);
            assert(p1.contains_key(q));
            assert(p.contains_key(q));
            let o = url_key(p[q]);
            assert(m.contains_key(o));
            assert(m1[o].required);
        }
    }
}
//@impl ser NamespacesBuilder
//@fn ser insert props=C10
    requires
        nb_inv(old(self).0@), !xmlish(requested_prefix@),
    ensures
        nb_inv(final(self).0@),
        nb_view(final(self).0@) == declared(nb_view(old(self).0@), requested_prefix@, url@),
//@at start
    broadcast use {lemma_occupied_resolved, lemma_vacant_resolved};
//@end
//@fn ser attribute props=C10
    requires
        nb_inv(old(self).0@),
    ensures
        nb_inv(final(self).0@),
        nb_view(final(self).0@) == used_by_attribute(nb_view(old(self).0@), url@),
//@end
//@fn ser finalize props=C10 fmt0=vx_fmt2 fmt1=vx_fmt2 attr=rlimit(40)
    requires
        nb_inv(self.0@),
    ensures
        finalized(nb_view(self.0@), r.by_url@, r.by_prefix@),
//@at start
    broadcast use {axiom_numbered, axiom_numbered_len};
    let ghost m0 = self.0@;
    proof { reveal_strlit("ns"); reveal_strlit(""); reveal_strlit("xml"); }
//@loop 0 map=mut
    invariant
        vx_i_0 <= vx_keys_0@.len(), vx_keys_0.keys_of(m0), vx_keys_0@.len() < 0x7fff_0000,
        nb_inv(m0),
        self.0@.dom() == m0.dom(), nb_view(self.0@) == nb_view(m0),
        bound_ok(self.0@, by_prefix@),
        by_prefix@.len() <= vx_i_0,
        forall|i: int| 0 <= i < vx_i_0 && self.0@[(#[trigger] vx_keys_0@[i]).key()].required ==> required_done(self.0@[vx_keys_0@[i].key()], by_prefix@),
        forall|i: int| vx_i_0 <= i < vx_keys_0@.len() ==> assigned(self.0@[(#[trigger] vx_keys_0@[i]).key()]) is None,
        forall|i: int| 0 <= i < vx_keys_0@.len() && !self.0@[(#[trigger] vx_keys_0@[i]).key()].required ==> assigned(self.0@[vx_keys_0@[i].key()]) is None,
        forall|q: Seq<char>| #[trigger] by_prefix@.contains_key(q) ==> self.0@[url_key(by_prefix@[q])].required,
    decreases vx_keys_0@.len() - vx_i_0
//@at loop 0 start
    let ghost p0 = by_prefix@;
    let ghost mm = self.0@;
    let ghost k0 = vx_keys_0@[vx_i_0 as int].key();
    proof {
        assert(m0.contains_key(k0)); assert(mm.dom().contains(k0));
        assert(nb_view(mm)[k0] == nb_view(m0)[k0]); assert(nb_view(mm)[k0] == ns_view(mm[k0])); assert(nb_view(m0)[k0] == ns_view(m0[k0]));
        lemma_assign_all(mm, p0, k0);
    }
//@at before loop 1
    proof {
        reveal_strlit("ns"); reveal_strlit(""); reveal_strlit("xml");
        axiom_str_inj(ns.requested_prefix, "");
        if ns.requested_prefix@.len() == 0 { assert(ns.requested_prefix@ =~= ""@); }
        assert(!xmlish(prefix@)) by { assert("ns"@.len() == 2); }
    }
//@loop 1 kind=while
    invariant_except_break
        by_prefix@ == p0,
    invariant
        i >= (if ns.requested_prefix@.len() == 0 { 1int } else { 2 }),
        p0.len() < 0x7fff_0000,
        prefix@.len() > 0, !xmlish(prefix@),
        forall|j: int| (if ns.requested_prefix@.len() == 0 { 1int } else { 2 }) <= j < i ==> #[trigger] p0.contains_key(numbered("{}{}"@, prefix@, j)),
        i <= (if ns.requested_prefix@.len() == 0 { 1int } else { 2 }) + p0.len(),
    ensures
        by_prefix@ == p0.insert(numbered("{}{}"@, prefix@, i as int), url@), !p0.contains_key(numbered("{}{}"@, prefix@, i as int)),
    decreases (if ns.requested_prefix@.len() == 0 { 1int } else { 2 }) + p0.len() - i
//@at loop 1 start
    proof { lemma_numbered_count(prefix@, p0, (if ns.requested_prefix@.len() == 0 { 1int } else { 2 }), i + 1); }
//@at loop 0 end
    proof {
        let q = numbered("{}{}"@, prefix@, i as int);
        assert(by_prefix@ == p0.insert(q, k0.1));
        assert(assigned(self.0@[k0]) == Some(q));
        axiom_numbered_len(prefix@, i as int); assert(!xmlish(q));
        assert(self.0@ == mm.insert(k0, self.0@[k0]));
    }
//@at before loop 2
    let ghost m1 = self.0@;
    let ghost p1 = by_prefix@;
    proof { assert forall|k: Key| #[trigger] m1.contains_key(k) && m1[k].required implies required_done(m1[k], p1) by { assert(m0.contains_key(k)); } }
//@loop 2 map=mut
    invariant
        vx_i_2 <= vx_keys_2@.len(), vx_keys_2.keys_of(m0),
        nb_inv(m0),
        self.0@.dom() == m0.dom(), nb_view(self.0@) == nb_view(m0),
        m1.dom() == m0.dom(), nb_view(m1) == nb_view(m0),
        bound_ok(self.0@, by_prefix@),
        forall|q: Seq<char>| #[trigger] p1.contains_key(q) ==> by_prefix@.contains_key(q) && by_prefix@[q] == p1[q],
        forall|k: Key| #[trigger] m1.contains_key(k) && m1[k].required ==> self.0@[k] == m1[k],
        forall|i: int| 0 <= i < vx_i_2 && !self.0@[(#[trigger] vx_keys_2@[i]).key()].required ==> optional_done(self.0@[vx_keys_2@[i].key()], by_prefix@),
        forall|i: int| vx_i_2 <= i < vx_keys_2@.len() && !self.0@[(#[trigger] vx_keys_2@[i]).key()].required ==> assigned(self.0@[vx_keys_2@[i].key()]) is None,
    decreases vx_keys_2@.len() - vx_i_2
//@at loop 2 start
    let ghost k2 = vx_keys_2@[vx_i_2 as int].key();
    let ghost mm2 = self.0@;
    proof {
        assert(m0.contains_key(k2)); assert(mm2.dom().contains(k2));
        assert(nb_view(mm2)[k2] == nb_view(m0)[k2]); assert(nb_view(mm2)[k2] == ns_view(mm2[k2])); assert(nb_view(m0)[k2] == ns_view(m0[k2]));
        if !mm2[k2].required { lemma_assign_all(mm2, by_prefix@, k2); }
        assert(m1.dom().contains(k2)); assert(nb_view(m1)[k2] == ns_view(m1[k2]));
    }
//@at tail
    proof { lemma_finalized(m0, m1, p1, self.0@, by_prefix@); }
//@end
//@endimpl

//@impl ser Namespaces
//@fn ser child props=C10
    requires
        bound_ok(self.by_url@, self.by_prefix@),
    ensures
        nb_inv(r.0@),
        inherited(self.by_prefix@, namespace@, nb_view(r.0@)),
//@loop 0 map=ref
    invariant
        vx_i_0 <= vx_keys_0@.len(),
        forall|i: int| 0 <= i < vx_keys_0@.len() ==> self.by_prefix@.contains_key((#[trigger] vx_keys_0@[i])@),
        forall|k: Seq<char>| #[trigger] self.by_prefix@.contains_key(k) ==> exists|i: int| 0 <= i < vx_keys_0@.len() && (#[trigger] vx_keys_0@[i])@ == k,
        forall|i: int, j: int| 0 <= i < vx_keys_0@.len() && 0 <= j < vx_keys_0@.len() && i != j ==> (#[trigger] vx_keys_0@[i])@ != (#[trigger] vx_keys_0@[j])@,
        bound_ok(self.by_url@, self.by_prefix@),
        nb_inv(child.0@),
        forall|i: int| 0 <= i < vx_i_0 ==> child.0@.contains_key(url_key(self.by_prefix@[(#[trigger] vx_keys_0@[i])@]))
            && ns_view(child.0@[url_key(self.by_prefix@[vx_keys_0@[i]@])]) == (NsV { requested: vx_keys_0@[i]@, required: self.by_prefix@[vx_keys_0@[i]@] == namespace@, needs: false }),
        forall|k: Key| #[trigger] child.0@.contains_key(k) ==> exists|i: int| 0 <= i < vx_i_0 && k == url_key(self.by_prefix@[(#[trigger] vx_keys_0@[i])@]),
        found_namespace <==> exists|i: int| 0 <= i < vx_i_0 && self.by_prefix@[(#[trigger] vx_keys_0@[i])@] == namespace@,
    decreases vx_keys_0@.len() - vx_i_0
//@end
//@fn ser resolve_element props=C10 panic_ok="undeclared_element(*self,name.namespace@)"
    requires
        bound_ok(self.by_url@, self.by_prefix@),
    ensures
        r.local_name == name.local_name,
        denotes_element(opt_view(r.prefix), self.by_prefix@, name.namespace@),
//@at start
    proof { lemma_empty(); }
//@end
//@fn ser resolve_attribute props=C10 panic_ok="undeclared_attribute(*self,name.namespace@)"
    requires
        bound_ok(self.by_url@, self.by_prefix@),
    ensures
        r.local_name == name.local_name,
        denotes_attribute(opt_view(r.prefix), self.by_prefix@, name.namespace@),
//@at start
    proof { lemma_empty(); }
//@end
//@endimpl

// ------------------------------------------------------------------- builders
//@impl ser ElementBuilder
//@fn ser "Drop for ElementBuilder::drop" props=C08 rename=vx_drop absent="fn vx_drop(self)" selfval=1
    ensures
        self.0 matches Some(i) ==> poisoned(cur(i.writer), fin(i.writer)),
//@at start
    broadcast use {lemma_builder_resolved, lemma_writer_resolved};
//@at end
    proof { assert(vx_hint(has_resolved(self.0))); assert(vx_hint(has_resolved(self))); }
//@end
//@fn ser namespace props=C10
    requires
        old(self).0 is Some, eb_inv(old(self).0->0), !xmlish(requested_prefix@),
    ensures
        final(self).0 is Some, eb_inv(final(self).0->0),
        eb_view(final(self).0->0) == (BS { nss: declared(eb_view(old(self).0->0).nss, requested_prefix@, url@), ..eb_view(old(self).0->0) }),
        cur(final(self).0->0.writer) == cur(old(self).0->0.writer),
        fin(final(self).0->0.writer) == fin(old(self).0->0.writer),
//@end
//@fn ser attribute props=C09,C10
    requires
        old(self).0 is Some, eb_inv(old(self).0->0),
    ensures
        final(self).0 is Some, eb_inv(final(self).0->0),
        added(eb_view(old(self).0->0), eb_view(final(self).0->0), name.key(), value@, r),
        cur(final(self).0->0.writer) == cur(old(self).0->0.writer),
        fin(final(self).0->0.writer) == fin(old(self).0->0.writer),
//@closure 0
    -> (b: bool) ensures b == ((**$0).0.key() == name.key())
//@at start
    broadcast use {lemma_occupied_resolved, lemma_vacant_resolved, lemma_attr_push, lemma_attr_push_view};
//@end
//@fn ser start props=C08,C09,C10 dropself=1 closures=1
    requires
        self.0 is Some, eb_inv(self.0->0),
    ensures
        r matches Ok(w) ==> {
            &&& w.0 is Some && ew_inv(w.0->0)
            &&& fin(w.0->0.writer) == fin(self.0->0.writer)
            &&& started(cur(self.0->0.writer), cur(w.0->0.writer))
            &&& start_tag(eb_view(self.0->0), cur(w.0->0.writer).log.last())
            &&& cur(w.0->0.writer).log.last()->ns == w.0->0.namespaces.by_prefix@
        },
        r is Err ==> poisoned(cur(self.0->0.writer), fin(self.0->0.writer)),
//@closure 0
    -> (a: xml::attribute::Attribute<'_>) ensures a.name.local_name@ == $0.0.local_name@, a.value@ == $0.1@, denotes_attribute(opt_view(a.name.prefix), namespaces.by_prefix@, $0.0.namespace@)
//@at start
    let ghost b = eb_view(self.0->0);
    let ghost a0 = cur(self.0->0.writer);
//@at tail
    proof {
        let ev = cur(inner.writer).log.last();
        assert(ev is Start);
        assert(ev->local == b.name.1);
        assert(denotes_element(ev->prefix, ev->ns, b.name.0));
        assert(ev->attrs.len() == b.attrs.len());
        assert forall|i: int| 0 <= i < b.attrs.len() implies {
            &&& (#[trigger] ev->attrs[i]).local == b.attrs[i].0.1
            &&& ev->attrs[i].value == b.attrs[i].1
            &&& denotes_attribute(ev->attrs[i].prefix, ev->ns, b.attrs[i].0.0) } by { }
        assert(finalized(b.nss, namespaces.by_url@, ev->ns));
        assert(start_tag(b, ev));
        assert(cur(inner.writer).log.drop_last() =~= a0.log);
    }
//@end
//@endimpl

//@impl ser ElementWriter
//@fn ser "Drop for ElementWriter::drop" props=C08 rename=vx_drop absent="fn vx_drop(self)" selfval=1
    ensures
        self.0 matches Some(i) ==> poisoned(cur(i.writer), fin(i.writer)),
//@at start
    broadcast use {lemma_builder_resolved, lemma_writer_resolved};
//@at end
    proof { assert(vx_hint(has_resolved(self.0))); assert(vx_hint(has_resolved(self))); }
//@end
//@fn ser element props=C08,C09,C10,C17
    requires
        old(self).0 is Some, ew_inv(old(self).0->0),
    ensures
        final(self).0 is Some, ew_inv(final(self).0->0),
        final(self).0->0.namespaces == old(self).0->0.namespaces,
        r.0 is Some, eb_inv(r.0->0),
        eb_view(r.0->0).name == name.key(), eb_view(r.0->0).attrs.len() == 0,
        inherited(old(self).0->0.namespaces.by_prefix@, name.namespace@, eb_view(r.0->0).nss),
        cur(r.0->0.writer) == cur(old(self).0->0.writer),
        cur(final(self).0->0.writer) == fin(r.0->0.writer),
        fin(final(self).0->0.writer) == fin(old(self).0->0.writer),
//@end
//@fn ser text props=C08,C17
    requires
        old(self).0 is Some,
    ensures
        final(self).0 is Some,
        final(self).0->0.namespaces == old(self).0->0.namespaces,
        wrote(cur(old(self).0->0.writer), cur(final(self).0->0.writer), Ev::Text(text@), r),
        fin(final(self).0->0.writer) == fin(old(self).0->0.writer),
//@end
//@fn ser finish props=C08,C17 dropself=1
    requires
        self.0 is Some,
    ensures
        wrote(cur(self.0->0.writer), fin(self.0->0.writer), Ev::End, r),
//@end
//@endimpl

// ------------------------------------------------------------------- elements
//@trait ser Serialize
    /// What this type's attributes do to a builder.
    spec fn attributes(&self, a: BS, b: BS, r: Result<(), Error>) -> bool;
    /// What writing this type's content in an element with the bindings `ctx` does.
    spec fn children(&self, ctx: Map<Seq<char>, Seq<char>>, a: WS, b: WS, r: Result<(), Error>) -> bool;
//@fn ser write_attributes props=C16,C17 nobody=1
    requires
        old(element).0 is Some, eb_inv(old(element).0->0),
    ensures
        final(element).0 is Some, eb_inv(final(element).0->0),
        attributes_added(eb_view(old(element).0->0), eb_view(final(element).0->0)),
        self.attributes(eb_view(old(element).0->0), eb_view(final(element).0->0), r),
        cur(final(element).0->0.writer) == cur(old(element).0->0.writer),
        fin(final(element).0->0.writer) == fin(old(element).0->0.writer),
//@end
//@fn ser write_children props=C08,C16,C17 nobody=1
    requires
        old(element).0 is Some, ew_inv(old(element).0->0),
    ensures
        final(element).0 is Some,
        final(element).0->0.namespaces == old(element).0->0.namespaces,
        grew(cur(old(element).0->0.writer), cur(final(element).0->0.writer)),
        self.children(old(element).0->0.namespaces.by_prefix@, cur(old(element).0->0.writer), cur(final(element).0->0.writer), r),
        fin(final(element).0->0.writer) == fin(old(element).0->0.writer),
//@end
//@endimpl

//@trait ser SerializeField
    spec fn field(&self, name: Key, ctx: Map<Seq<char>, Seq<char>>, a: WS, b: WS, r: Result<(), Error>) -> bool;
//@fn ser write props=C08,C17
    requires
        old(parent).0 is Some, ew_inv(old(parent).0->0),
    ensures
        final(parent).0 is Some,
        final(parent).0->0.namespaces == old(parent).0->0.namespaces,
        grew(cur(old(parent).0->0.writer), cur(final(parent).0->0.writer)),
        self.field(name.key(), old(parent).0->0.namespaces.by_prefix@, cur(old(parent).0->0.writer), cur(final(parent).0->0.writer), r),
        fin(final(parent).0->0.writer) == fin(old(parent).0->0.writer),
//@end
//@endimpl

//@impl ser "SerializeField for T0"
    open spec fn field(&self, name: Key, ctx: Map<Seq<char>, Seq<char>>, a: WS, b: WS, r: Result<(), Error>) -> bool {
        match r {
            Ok(_) => element_written(self, name, ctx, a, b),
            Err(_) => b.poison is Some,
        }
    }
//@fn ser write props=C08,C17
//@at start
    broadcast use {group_grew, lemma_element_written};
//@end
//@endimpl

//@impl ser "SerializeField for Option<T0>"
    open spec fn field(&self, name: Key, ctx: Map<Seq<char>, Seq<char>>, a: WS, b: WS, r: Result<(), Error>) -> bool {
        match self {
            None => r is Ok && b == a,
            Some(t) => t.field(name, ctx, a, b, r),
        }
    }
//@fn ser write props=C08,C17
//@at start
    broadcast use group_grew;
//@end
//@endimpl

/// One more item.
pub broadcast proof fn lemma_vec_step<T: Serialize>(s: Seq<T>, i: int, name: Key, ctx: Map<Seq<char>, Seq<char>>, a: WS, m: WS, b: WS, r: Result<(), Error>)
    requires 0 <= i < s.len(), #[trigger] all_written(s.take(i), name, ctx, a, m), grew(a, m), grew(m, b), #[trigger] s[i].field(name, ctx, m, b, r)
    ensures grew(a, b), r is Ok ==> all_written(s.take(i + 1), name, ctx, a, b)
{
    lemma_grew_trans(a, m, b);
    let t = s.take(i + 1);
    assert(t.drop_last() =~= s.take(i));
    assert(t.last() == s[i]);
    if r is Ok { assert(t.last().field(name, ctx, m, b, Ok(()))); }
}
//@impl ser "SerializeField for Vec<T0>"
    open spec fn field(&self, name: Key, ctx: Map<Seq<char>, Seq<char>>, a: WS, b: WS, r: Result<(), Error>) -> bool {
        match r {
            Ok(_) => all_written(self@, name, ctx, a, b),
            Err(_) => exists|n: int, m: WS| 0 <= n < self@.len() && all_written(self@.take(n), name, ctx, a, m)
                && #[trigger] self@[n].field(name, ctx, m, b, r),
        }
    }
//@fn ser write props=C08,C17 attr=loop_isolation(false)
//@at start
    broadcast use {group_grew, lemma_vec_step};
    proof { assert(self@.take(self@.len() as int) =~= self@); }
//@loop 0 slice=1
    invariant
        vx_i_0 <= self@.len(), vx_s_0 == self,
        parent.0 is Some, ew_inv(parent.0->0),
        parent.0->0.namespaces == old(parent).0->0.namespaces,
        grew(cur(old(parent).0->0.writer), cur(parent.0->0.writer)),
        fin(parent.0->0.writer) == fin(old(parent).0->0.writer),
        all_written(self@.take(vx_i_0 as int), name.key(), old(parent).0->0.namespaces.by_prefix@, cur(old(parent).0->0.writer), cur(parent.0->0.writer)),
    decreases self@.len() - vx_i_0
//@end
//@endimpl

// ------------------------------------------------------------------- text
//@trait ser ToText
    /// `r` is an outcome of printing this value.
    spec fn prints(&self, r: Result<String, Error>) -> bool;
//@fn ser to_text props=C07,C17
    ensures self.prints(r)
//@end
//@endimpl

//@impl ser "Serialize for T0"
    open spec fn attributes(&self, a: BS, b: BS, r: Result<(), Error>) -> bool { r is Ok && b == a }
    open spec fn children(&self, ctx: Map<Seq<char>, Seq<char>>, a: WS, b: WS, r: Result<(), Error>) -> bool {
        exists|t: Result<String, Error>| #[trigger] self.prints(t) && match t {
            Ok(s) => wrote(a, b, Ev::Text(s@), r),
            Err(_) => r is Err && b == a,
        }
    }
//@fn ser write_attributes props=C17 inherit="trait Serialize::write_attributes"
//@at start
    broadcast use {lemma_attributes_same};
//@end
//@fn ser write_children props=C08,C17 inherit="trait Serialize::write_children"
//@at start
    broadcast use {group_grew};
//@end
//@endimpl

//@trait ser SerializeAttr
    spec fn attr(&self, name: Key, a: BS, b: BS, r: Result<(), Error>) -> bool;
//@fn ser write props=C09,C17
    requires
        old(builder).0 is Some, eb_inv(old(builder).0->0),
    ensures
        final(builder).0 is Some, eb_inv(final(builder).0->0),
        attributes_added(eb_view(old(builder).0->0), eb_view(final(builder).0->0)),
        self.attr(name.key(), eb_view(old(builder).0->0), eb_view(final(builder).0->0), r),
        cur(final(builder).0->0.writer) == cur(old(builder).0->0.writer),
        fin(final(builder).0->0.writer) == fin(old(builder).0->0.writer),
//@end
//@endimpl

/// A present attribute: added with exactly the text the value prints.
pub open spec fn attr_written<T: ToText>(t: &T, name: Key, a: BS, b: BS, r: Result<(), Error>) -> bool {
    exists|x: Result<String, Error>| #[trigger] t.prints(x) && match x {
        Ok(s) => added(a, b, name, s@, r),
        Err(_) => r is Err && b == a,
    }
}
//@impl ser "SerializeAttr for T0"
    open spec fn attr(&self, name: Key, a: BS, b: BS, r: Result<(), Error>) -> bool { attr_written(self, name, a, b, r) }
//@fn ser write props=C09,C17
//@at start
    broadcast use {lemma_attributes_same, lemma_attributes_added};
//@end
//@endimpl

//@impl ser "SerializeAttr for Option<T0>"
    open spec fn attr(&self, name: Key, a: BS, b: BS, r: Result<(), Error>) -> bool {
        match self {
            None => r is Ok && b == a,
            Some(t) => attr_written(t, name, a, b, r),
        }
    }
//@fn ser write props=C09,C17
//@at start
    broadcast use {lemma_attributes_same, lemma_attributes_added};
//@end
//@endimpl

// ------------------------------------------------------------------- documents
//@trait ser SerializeRoot
    spec fn root_name(&self) -> Key;
//@fn ser root props=C16 nobody=1
    ensures r.key() == self.root_name()
//@end
//@endimpl

//@item ser struct Serializer
impl Default for xml::writer::EmitterConfig {
    #[verifier::external_body]
    fn default() -> Self { unimplemented!() }
}

/// `&mut writer as &mut dyn ErasedEventWriter`
#[verifier::external_body]
pub fn vx_as_dyn<'b, W: Write>(w: &'b mut WrappedWriter<W>) -> (o: &'b mut dyn ErasedEventWriter)
    ensures cur(o) == old(w).st(), fin(o) == final(w).st()
{ unimplemented!() }

/// What was written is one complete element named as requested, and no failure is hidden.
pub open spec fn document(name: Key, t: &dyn Serialize, b: WS) -> bool {
    exists|mid: WS| element_parts(t, BS { name: name, attrs: Seq::empty(), nss: Map::empty() }, WS { log: Seq::empty(), poison: None }, #[trigger] mark(mid), b)
}
pub broadcast proof fn lemma_nb_empty(m: Map<Key, Namespace<'_>>)
    requires m == Map::<Key, Namespace<'_>>::empty()
    ensures #[trigger] nb_view(m) == Map::<Key, NsV>::empty()
{ assert(nb_view(m) =~= Map::<Key, NsV>::empty()); }
pub broadcast proof fn lemma_document(t: &dyn Serialize, b0: BS, b1: BS, a: WS, s: WS, m: WS, b: WS, r: Result<(), Error>)
    requires
        b0.nss == Map::<Key, NsV>::empty(), b0.attrs.len() == 0,
        #[trigger] t.attributes(b0, b1, Ok(())),
        started(a, s), start_tag(b1, s.log.last()), grew(s, m), a.log == Seq::<Ev>::empty(),
        #[trigger] t.children(s.log.last()->ns, s, m, Ok(())),
        #[trigger] wrote(m, b, Ev::End, r), r is Ok, #[trigger] started(a, s),
    ensures
        document(b0.name, t, b)
{
    broadcast use lemma_element_finished;
    assert(b0.attrs =~= Seq::empty());
    assert(m.log.take(a.log.len() as int + 1) == s.log);
    assert(s == (WS { log: m.log.take(a.log.len() as int + 1), poison: None }));
    assert(start_tag(b1, m.log[a.log.len() as int]));
    assert(element_parts(t, BS { name: b0.name, attrs: Seq::empty(), nss: Map::empty() }, a, mark(m), b));
}

//@impl ser Serializer
//@fn ser to props=C08,C16,C17 wrapfield.writer=vx_as_dyn
    ensures r is Ok ==> exists|ws: WS| #[trigger] document(self.name.key(), self.element, ws),
//@at start
    broadcast use {group_grew, lemma_document, lemma_nb_empty};
//@at after tail
    proof {
        assert(vx_r is Ok ==> document(self.name.key(), self.element, fin(builder.0->0.writer))); //#C08 C16
    }
//@end
//@fn ser perform_indent props=C16
    ensures r.name == self.name, r.element == self.element,
//@end
//@fn ser write_document_declaration props=C16
    ensures r.name == self.name, r.element == self.element,
//@end
//@fn ser to_string props=C08,C16
    ensures r is Ok ==> exists|ws: WS| #[trigger] document(self.name.key(), self.element, ws),
//@end
//@endimpl

//@fn ser serialize props=C16
    ensures r.name.key() == root.root_name(),
//@end
//@fn ser serialize_with_name props=C16
    ensures r.name == name, r.element == element,
//@end

