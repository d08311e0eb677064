// What the contracts on the derived readers (dde.rs) are written in: slots of memory,
// steps of a handler's history, and what a handler is told of an element.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct MaybeUninit<T> { x: std::marker::PhantomData<T> }
impl<T> MaybeUninit<T> {
    pub uninterp spec fn view(&self) -> Option<T>;
    #[verifier::external_body]
    pub fn uninit() -> (r: Self) ensures r@ is None { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&mut self, v: T)
        requires old(self)@ is None
        ensures final(self)@ == Some(v)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn assume_init_mut(&mut self) -> (r: &mut T)
        requires old(self)@ is Some
        ensures *r == old(self)@.unwrap(), final(self)@ == Some(*final(r))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn assume_init(self) -> (r: T)
        requires self@ is Some
        ensures Some(r) == self@
    { unimplemented!() }
}
/// ptr::write
#[verifier::external_body]
pub fn vx_put<T>(p: &mut MaybeUninit<T>, v: T)
    requires old(p)@ is None
    ensures final(p)@ == Some(v)
{ unimplemented!() }
/// &mut *p
#[verifier::external_body]
pub fn vx_deref<T>(p: &mut MaybeUninit<T>) -> (r: &mut T)
    requires old(p)@ is Some
    ensures *r == old(p)@.unwrap(), final(p)@ == Some(*final(r))
{ unimplemented!() }

/// a default value
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxFn<T> { x: std::marker::PhantomData<T> }
#[verifier::external_body]
pub fn vx_default_fn<T>() -> (r: VxFn<T>) ensures r == default_fn::<T>() { unimplemented!() }
pub uninterp spec fn default_fn<T>() -> VxFn<T>;
impl<T> VxFn<T> { pub uninterp spec fn gives(&self, v: T) -> bool; }
#[verifier::external_body]
pub fn vx_call<T>(f: VxFn<T>) -> (r: T) ensures f.gives(r) { unimplemented!() }

#[verifier::external_body]
pub fn vx_dyn<'a, V: ElementVisitor>(v: &'a mut V) -> (o: &'a mut dyn ElementVisitor)
   ensures (*o).log() == old(v).log(), (*o).inv() == old(v).inv(), (*o).place() == old(v).place(),
     final(o).log() == final(v).log(), final(o).inv() == final(v).inv(), final(o).place() == final(v).place()
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_slice<'a, T, const N: usize>(a: &'a mut [T; N]) -> (r: &'a mut [T]) ensures r@ == old(a)@, final(a)@ == final(r)@
{ unimplemented!() }

pub open spec fn elem_name(e: Entry) -> (Seq<char>, Seq<char>) {
    match e.call {
        Call::Elem { src, at } => expanded_owned(src.evs[at - 1]->StartElement_name),
        Call::Attr { ns, local, value } => (ns, local),
        _ => (""@, ""@),
    }
}
pub open spec fn is_elem(e: Entry, ns: Seq<char>, local: Seq<char>) -> bool { e.call is Elem && elem_name(e) == (ns, local) }
pub open spec fn is_attr(e: Entry, ns: Seq<char>, local: Seq<char>) -> bool { e.call is Attr && elem_name(e) == (ns, local) }
pub open spec fn handed_on(e: Entry) -> Answer {
    match e.call { Call::Attr { value, .. } => Answer::Passed(value), Call::Elem { .. } => Answer::Passed(Seq::empty()), Call::Chars { s, .. } => Answer::Passed(s) }
}
/// An occurrence of a field's element takes the field from `a` to `b`.
pub open spec fn elem_step<T: DeserializeElementField>(a: Option<T>, b: Option<T>, e: Entry) -> bool {
    let src = e.call->Elem_src;
    let at = e.call->at;
    match (a, e.answer) {
        (None, Answer::Consumed) => b is Some && T::inits(src, at, Ok(b.unwrap())),
        (None, Answer::Failed(er)) => b is None && T::inits(src, at, Err(er)),
        (Some(o), Answer::Consumed) => b is Some && T::updates(o, b.unwrap(), src, at, Ok(())),
        (Some(o), Answer::Failed(er)) => b is Some && T::updates(o, b.unwrap(), src, at, Err(er)),
        _ => false,
    }
}
pub open spec fn attr_step<T: DeserializeAttrField>(a: Option<T>, b: Option<T>, e: Entry) -> bool {
    let value = e.call->value;
    match (a, e.answer) {
        (None, Answer::Consumed) => b is Some && T::inits(value, Ok(b.unwrap())),
        (None, Answer::Failed(er)) => b is None && T::inits(value, Err(er)),
        (Some(o), Answer::Failed(er)) => b == a && er is Wrap,
        _ => false,
    }
}
/// An entry that the type itself does not claim.
pub open spec fn routed(a: Seq<Seq<Entry>>, b: Seq<Seq<Entry>>, e: Entry) -> bool {
    if a.len() == 0 { b == a && e.answer == handed_on(e) }
    else {
    match e.call {
        Call::Attr { ns, local, value } => delegated(a, b, |v: Seq<char>| Call::Attr { ns, local, value: v }, value, e.answer),
        Call::Elem { src, at } => delegated(a, b, |v: Seq<char>| Call::Elem { src, at }, Seq::<char>::empty(), e.answer),
        Call::Chars { s, pos } => delegated(a, b, |v: Seq<char>| Call::Chars { s: v, pos }, s, e.answer),
    }
    }
}
pub proof fn lemma_str_lt_at(a: Seq<char>, b: Seq<char>, k: int)
    requires 0 <= k < b.len(), k <= a.len(), forall|i: int| 0 <= i < k ==> a[i] == b[i], k == a.len() || (a[k] as u32) < (b[k] as u32)
    ensures str_lt(a, b), a != b
    decreases k
{
    if k == 0 { assert(str_lt(a, b)); assert(a.len() == 0 || a[0] != b[0]); } else {
        assert(a[0] == b[0]);
        assert(k < b.len());
        lemma_str_lt_at(a.skip(1), b.skip(1), k - 1);
        if k < a.len() { assert(a[k] != b[k]); }
    }
}
pub broadcast proof fn lemma_child_name(child: ElementReader<'_>)
    requires #[trigger] fresh(child)
    ensures at(child).stk.len() == child.stack_pos + 1,
      at(child).stk[child.stack_pos as int].name == at(child).src.evs[at(child).idx - 1]->StartElement_name,
      rinv(at(child)),
{
    lemma_trim(at(child));
    lemma_step(at(child).src, at(child).idx - 1);
}

pub open spec fn chain<S>(h: Seq<S>, log: Seq<Entry>, s0: S, step: spec_fn(S, S, Entry) -> bool) -> bool {
    &&& h.len() == log.len() + 1
    &&& h[0] == s0
    &&& forall|i: int| 0 <= i < log.len() ==> step(h[i], h[i + 1], #[trigger] log[i])
}
pub broadcast proof fn lemma_chain<S>(h: Seq<S>, log: Seq<Entry>, s0: S, step: spec_fn(S, S, Entry) -> bool, s: S, e: Entry)
    requires #[trigger] chain(h, log, s0, step), step(h.last(), s, e)
    ensures chain(#[trigger] h.push(s), #[trigger] log.push(e), s0, step)
{ 
    let h2 = h.push(s); let l2 = log.push(e);
    assert forall|i: int| 0 <= i < l2.len() implies step(h2[i], h2[i + 1], #[trigger] l2[i]) by {
        if i < log.len() { assert(log[i] == l2[i]); }
    }
}
pub open spec fn took<S>(log: Seq<Entry>, s0: S, step: spec_fn(S, S, Entry) -> bool, s: S) -> bool {
    exists|h: Seq<S>| #[trigger] chain(h, log, s0, step) && h.last() == s
}
pub proof fn lemma_chain0<S>(s0: S, step: spec_fn(S, S, Entry) -> bool) 
   ensures chain(Seq::empty().push(s0), Seq::<Entry>::empty(), s0, step) {}
// ------ documents
pub open spec fn entry_state(src: Src, i: int) -> RS { RS { src, idx: i, dep: src.depth(i), stk: src.open(i) } }
pub open spec fn attrs_at(src: Src, i: int) -> Seq<xml::attribute::OwnedAttribute> { src.evs[i - 1]->StartElement_attributes@ }
/// `log` is what a visitor is told about the whole element whose start tag is event `i - 1`.
pub open spec fn visited(src: Src, i: int, log: Seq<Entry>) -> bool {
    exists|k: int| #[trigger] src.returns(i, src.depth(i) - 1, k + 1) && is_end(src.evs[k])
        && extended(Seq::empty(), log, attr_calls(attrs_at(src, i), attrs_at(src, i).len() as int) + content(src, src.depth(i), i, k))
}
/// ... and about an element that could not be read to its end.
pub open spec fn visit_failed(src: Src, i: int, log: Seq<Entry>, p: Error) -> bool {
    let s0 = entry_state(src, i);
    let attrs = attrs_at(src, i);
    ||| is_source_error(p, src) && exists|j: int| #[trigger] extended(Seq::empty(), log, attr_calls(attrs, attrs.len() as int) + content(src, s0.dep, i, j)) && i <= j
    ||| attr_error(s0, Seq::empty(), attrs, log, p)
    ||| exists|s1: RS| #[trigger] content_error(s0, s1, Seq::empty(), attrs, log, p)
}
pub broadcast proof fn lemma_visited(me: ElementReader<'_>, s1: RS, log0: Seq<Entry>, log: Seq<Entry>, r: Result<(xml::name::OwnedName, xml::namespace::Namespace, TextPosition), VisitorError>)
    requires #[trigger] read_done(me, s1, log0, log, r), fresh(me), log0 == Seq::<Entry>::empty()
    ensures match r {
        Ok(_) => visited(at(me).src, at(me).idx, log),
        Err(VisitorError::Propagate(p)) => visit_failed(at(me).src, at(me).idx, log, p),
        Err(_) => false,
    }
{
    assert(at(me) == entry_state(at(me).src, at(me).idx));
    if r is Ok {
        let k = s1.idx - 1;
        assert(at(me).src.returns(at(me).idx, at(me).src.depth(at(me).idx) - 1, k + 1));
    }
}
pub broadcast proof fn lemma_took<S>(h: Seq<S>, log: Seq<Entry>, s0: S, step: spec_fn(S, S, Entry) -> bool)
    requires #[trigger] chain(h, log, s0, step)
    ensures took(log, s0, step, h.last())
{ }

pub uninterp spec fn value_at<T>(p: Place) -> Option<T>;
#[verifier::external_body]
pub broadcast proof fn axiom_value_at<T>(a: Option<T>) ensures value_at(#[trigger] place_of(a)) == a {}
pub open spec fn elem_value<T: DeserializeElementField>(s: Option<T>, v: T) -> bool { match s { Some(x) => v == x, None => T::misses(Ok(v)) } }
pub open spec fn attr_value<T: DeserializeAttrField>(s: Option<T>, v: T) -> bool { match s { Some(x) => v == x, None => T::misses(Ok(v)) } }
pub open spec fn elem_missing<T: DeserializeElementField>(s: Option<T>, e: VisitorError) -> bool { s is None && T::misses(Err(e)) }
pub open spec fn attr_missing<T: DeserializeAttrField>(s: Option<T>, e: VisitorError) -> bool { s is None && T::misses(Err(e)) }
pub open spec fn default_value<T>(s: Option<T>, v: T) -> bool { match s { Some(x) => v == x, None => default_fn::<T>().gives(v) } }
