//@include std_prelude.rs
//@include xml_model.rs
//@source lib static-xml/src/lib.rs
//@source de static-xml/src/de/mod.rs

// ------------------------------------------------------- more assumed contracts
/// `Box<dyn std::error::Error + Send + Sync>`: opaque.
#[verifier::external_body]
pub struct VxBoxedError { x: () }
pub type BoxedStdError = VxBoxedError;

#[verifier::external_body]
pub fn vx_box<T>(e: T) -> (r: VxBoxedError) { unimplemented!() }

/// `format!` of anything: some string.
#[verifier::external_body]
pub fn vx_fmt() -> (r: String) { unimplemented!() }

/// The text `s` contains the printed form of the name.
pub uninterp spec fn mentions(s: Seq<char>, n: xml::name::OwnedName) -> bool;
/// `format!("...{}...", name)`
#[verifier::external_body]
pub fn vx_fmt_owned_name(lit: &&str, n: &&xml::name::OwnedName) -> (r: String)
    ensures mentions(r@, **n)
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_to_vec<T>(s: &[T]) -> (r: Vec<T>)
    ensures r@ == s@
{ unimplemented!() }

/// Vec::drain(..)
#[verifier::external_body]
pub fn vx_drain_all<T>(v: &mut Vec<T>, all: std::ops::RangeFull) -> (r: Vec<T>)
    ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty()
{ unimplemented!() }

pub fn vx_assert_eq<T>(a: T, b: T)
    requires a == b
{ }

/// Two strings with the same characters are the same string.
#[verifier::external_body]
pub broadcast proof fn axiom_str_inj(a: &str, b: &str)
    ensures #[trigger] a@ == #[trigger] b@ ==> a == b
{ }

// ------------------------------------------------------------ printing of errors
/// What was printed so far.
pub uninterp spec fn out(f: std::fmt::Formatter<'_>) -> Seq<char>;
/// What can be printed; `spec` is what stands behind the colon in `{:spec}`.
pub trait VxShow {
    spec fn shown(&self, spec: Seq<char>) -> Seq<char>;
}
pub uninterp spec fn show_number(n: int, spec: Seq<char>) -> Seq<char>;
pub uninterp spec fn show_str(n: Seq<char>, spec: Seq<char>) -> Seq<char>;
pub uninterp spec fn show_boxed(n: VxBoxedError, spec: Seq<char>) -> Seq<char>;
pub uninterp spec fn show_pos(p: TextPosition) -> Seq<char>;
pub uninterp spec fn show_name(n: (Seq<char>, Option<Seq<char>>)) -> Seq<char>;
impl VxShow for usize { open spec fn shown(&self, spec: Seq<char>) -> Seq<char> { show_number(*self as int, spec) } }
impl VxShow for str { open spec fn shown(&self, spec: Seq<char>) -> Seq<char> { show_str(self@, spec) } }
impl VxShow for String { open spec fn shown(&self, spec: Seq<char>) -> Seq<char> { show_str(self@, spec) } }
impl VxShow for VxBoxedError { open spec fn shown(&self, spec: Seq<char>) -> Seq<char> { show_boxed(*self, spec) } }
impl VxShow for TextPosition { open spec fn shown(&self, spec: Seq<char>) -> Seq<char> { show_pos(*self) } }
impl<'a, 'b> VxShow for xml::name::ReprDisplay<'a, 'b> { open spec fn shown(&self, spec: Seq<char>) -> Seq<char> { show_name(self.of()) } }
impl VxShow for ErrorKind { open spec fn shown(&self, spec: Seq<char>) -> Seq<char> { self.text() } }
impl<T: VxShow + ?Sized> VxShow for &T { open spec fn shown(&self, spec: Seq<char>) -> Seq<char> { (**self).shown(spec) } }
#[verifier::external_body]
pub fn vx_write_lit(f: &mut std::fmt::Formatter<'_>, lit: &'static str) -> (r: std::fmt::Result)
    ensures r is Ok ==> out(*final(f)) == out(*old(f)) + lit@
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_write_arg<T: VxShow + ?Sized>(f: &mut std::fmt::Formatter<'_>, spec: &'static str, x: &T) -> (r: std::fmt::Result)
    ensures r is Ok ==> out(*final(f)) == out(*old(f)) + x.shown(spec@)
{ unimplemented!() }
/// `x.fmt(f)` (`Display`)
#[verifier::external_body]
pub fn vx_show<T: VxShow + ?Sized>(x: &T, f: &mut std::fmt::Formatter<'_>) -> (r: std::fmt::Result)
    ensures r is Ok ==> out(*final(f)) == out(*old(f)) + x.shown(""@)
{ unimplemented!() }
impl ErrorKind {
    /// The message.
    pub open spec fn text(&self) -> Seq<char> {
        match *self {
            ErrorKind::Xml(e) => show_str(e.message(), ""@),
            ErrorKind::Deserializer(e) => show_boxed(e, ""@),
            ErrorKind::Msg(m) => show_str(m@, ""@),
        }
    }
}
/// What is printed after `o` for the first `n` elements of the stack, the innermost one first.
pub open spec fn lines(o: Seq<char>, stack: Seq<StackElement>, n: int) -> Seq<char>
    decreases n
{
    if n <= 0 { o } else {
        let e = stack[n - 1];
        lines(
            o + show_number(n - 1, "4x"@) + ": <"@ + show_name((e.name.local_name@, xml::name::opt_string(e.name.prefix))) + "> @ "@ + show_pos(e.pos) + "\n"@,
            stack, n - 1)
    }
}
/// What is printed after `o` for an error: its message, its position, and the stack of open elements.
pub open spec fn error_text(o: Seq<char>, e: ErrorInner) -> Seq<char> {
    let t = o + e.kind.text() + " @ "@ + show_pos(e.pos);
    if e.stack@.len() == 0 { t } else { lines(t + "\n\nXML element stack:\n"@, e.stack@, e.stack@.len() as int) }
}

// ------------------------------------------------------------ causes of errors
/// What `source()` returns: an error that somebody else made.
pub ghost enum Cause {
    Xml(xml::reader::Error),
    Io(xml::reader::IoError),
    Utf8(xml::reader::Utf8Error),
    Boxed(VxBoxedError),
}
/// `&(dyn std::error::Error + 'static)`
#[verifier::external_body]
pub struct VxCause<'a> { x: std::marker::PhantomData<&'a ()> }
impl<'a> VxCause<'a> { pub uninterp spec fn of(&self) -> Cause; }
pub trait VxError { spec fn cause(&self) -> Cause; }
impl VxError for xml::reader::Error { open spec fn cause(&self) -> Cause { Cause::Xml(*self) } }
impl VxError for xml::reader::IoError { open spec fn cause(&self) -> Cause { Cause::Io(*self) } }
impl VxError for xml::reader::Utf8Error { open spec fn cause(&self) -> Cause { Cause::Utf8(*self) } }
impl VxError for VxBoxedError { open spec fn cause(&self) -> Cause { Cause::Boxed(*self) } }
/// `Some(e)`, where `e` becomes a `&dyn Error`
#[verifier::external_body]
pub fn vx_cause<'a, T: VxError>(e: &'a T) -> (r: Option<VxCause<'a>>)
    ensures r matches Some(c) && c.of() == e.cause()
{ unimplemented!() }
impl VxBoxedError {
    pub fn as_ref(&self) -> (r: &VxBoxedError) ensures r == self { self }
}
impl ErrorKind {
    /// The first cause: the I/O error behind an error of the XML source if there is one, the handler's own error.
    pub open spec fn first_cause(&self) -> Option<Cause> {
        match *self {
            ErrorKind::Xml(e) => Some(match e.what() {
                xml::reader::ErrorKind::Io(io) => Cause::Io(io),
                xml::reader::ErrorKind::Utf8(u) => Cause::Utf8(u),
                _ => Cause::Xml(e),
            }),
            ErrorKind::Deserializer(e) => Some(Cause::Boxed(e)),
            ErrorKind::Msg(_) => None,
        }
    }
}
pub open spec fn is_cause(r: Option<VxCause<'_>>, c: Option<Cause>) -> bool {
    match r { Some(x) => c == Some(x.of()), None => c is None }
}

//@method fmt vx_show ref args
//@method to_vec vx_to_vec val
//@method drain vx_drain_all mut args
//@call Box::new vx_box
//@ctor VisitorError::Propagate vx_propagate
//@ctor VisitorError::Wrap vx_wrap
//@ctor Some vx_some
pub fn vx_propagate(e: Error) -> (r: VisitorError) ensures r == VisitorError::Propagate(e) { VisitorError::Propagate(e) }
pub fn vx_wrap(e: VxBoxedError) -> (r: VisitorError) ensures r == VisitorError::Wrap(e) { VisitorError::Wrap(e) }
pub fn vx_some<T>(v: T) -> (r: Option<T>) ensures r == Some(v) { Some(v) }

// ------------------------------------------------------------------ real types
//@item lib const XML_NS
//@item lib struct ExpandedNameRef derive=Copy+Clone needs=Eq+Ord+PartialEq+PartialOrd
//@item de struct StackElement needs=Clone
//@item de enum VisitorError
//@item de struct SimpleError
//@item de struct Error
//@item de struct ErrorInner
//@item de enum ErrorKind
//@item de struct Reader attr=reject_recursive_types(R)
//@item de enum Event
//@item de struct ElementReader

//@include de_model.rs

// ------------------------------------------------------------------- names
//@impl lib ExpandedNameRef
//@fn lib from_xml_name props=C11
    ensures (r.namespace@, r.local_name@) == expanded_of(*name)
//@at start
    broadcast use axiom_str_inj;
//@end
//@endimpl

// ------------------------------------------------------------------- errors
//@impl de VisitorError
//@fn de missing_element props=C06
    ensures r is Wrap
//@end
//@fn de missing_attribute props=C06
    ensures r is Wrap
//@end
//@fn de duplicate_attribute props=C13
    ensures r is Wrap
//@end
//@fn de duplicate_element props=C06,C13,C14
    ensures r is Wrap
//@end
//@fn de unexpected_element props=C14
    ensures r is Wrap
//@end
//@fn de cant_be_empty props=C14
    ensures r is Wrap
//@end
//@fn de wrap props=C04
    ensures is_wrapped(r, self, stack@, pos)
//@end
//@endimpl

impl vstd::std_specs::convert::FromSpecImpl<Error> for VisitorError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: Error) -> VisitorError { VisitorError::Propagate(e) }
}
//@impl de "From<Error> for VisitorError"
//@fn de from props=C04
    ensures r == VisitorError::Propagate(e)
//@locals e
//@end
//@endimpl

//@impl de Error
//@fn de stack props=C04
    ensures r@ == self.0.stack@
//@end
//@fn de xml props=C03,C04
    ensures r.0.kind == ErrorKind::Xml(e), r.0.stack@ == stack@, r.0.pos == e.pos()
//@end
//@fn de msg props=C04
    ensures r.0.kind == ErrorKind::Msg(msg), r.0.stack@ == stack@, r.0.pos == pos
//@end
//@fn de deserializer props=C04
    ensures r.0.kind == ErrorKind::Deserializer(e), r.0.stack@ == stack@, r.0.pos == pos
//@end
//@fn de "Error for Error::source" props=C04 rename=source call.Some=vx_cause
//@sig &(dyn std::error::Error + 'static) => VxCause<'_>
    ensures is_cause(r, self.0.kind.first_cause()),
//@end
//@fn de "Display for Error::fmt" props=C04 rename=vx_print write=5 attr=loop_isolation(false)
    ensures r is Ok ==> out(*final(f)) == error_text(out(*old(f)), *self.0),
//@loop 0 walk=rev
    invariant
        vx_i_0 <= inner.stack@.len(),
        error_text(out(*old(f)), *self.0) == lines(out(*f), inner.stack@, vx_i_0 as int),
    decreases vx_i_0
//@end
//@endimpl
impl ErrorKind {
//@fn de "Error for ErrorKind::source" props=C04 rename=source call.Some=vx_cause
//@sig &(dyn std::error::Error + 'static) => VxCause<'_>
    ensures is_cause(r, self.first_cause()),
//@end
//@fn de "Display for ErrorKind::fmt" props=C04 rename=vx_print
    ensures r is Ok ==> out(*final(f)) == out(*old(f)) + self.text(),
//@end
}

/// What `?` does with an `Error` where a `VisitorError` is returned: `From::from`,
/// whose contract is proved above.
#[verifier::external_body]
broadcast proof fn axiom_question_mark(e: Error, v: VisitorError)
    requires #[trigger] vstd::std_specs::control_flow::spec_from::<VisitorError, Error>(e, v)
    ensures v == VisitorError::Propagate(e)
{ }

// ------------------------------------------------------------------- lemmas
proof fn lemma_step(src: Src, i: int)
    requires src.wf(), 0 <= i
    ensures
        0 <= src.depth(i) < usize::MAX,
        0 <= src.depth(i + 1) < usize::MAX,
        i < src.evs.len() && is_start(src.evs[i]) ==> src.depth(i + 1) == src.depth(i) + 1
            && src.open(i + 1) == src.open(i).push(StackElement { name: src.evs[i]->StartElement_name, pos: src.pos_at(i + 1) }),
        i < src.evs.len() && is_end(src.evs[i]) ==> src.depth(i + 1) == src.depth(i) - 1 && src.open(i + 1) == src.open(i).drop_last()
            && src.open(i).last().name == src.evs[i]->EndElement_name,
        i < src.evs.len() && !is_end(src.evs[i]) && !is_start(src.evs[i]) ==> src.open(i + 1) == src.open(i),
        i >= src.evs.len() ==> src.open(i + 1) == src.open(i),
{
    reveal(Src::wf);
}

/// Nothing opens or closes between `i` and the next significant event.
proof fn lemma_skip(src: Src, i: int, j: int)
    requires src.wf(), 0 <= i <= j <= src.evs.len(), forall|k: int| i <= k < j ==> !is_sig(#[trigger] src.evs[k])
    ensures src.open(j) == src.open(i)
    decreases j - i
{
    if i < j { lemma_skip(src, i, j - 1); lemma_step(src, j - 1); }
}

/// Inside an element there is always more to come.
proof fn lemma_has_more(src: Src, i: int)
    requires src.wf(), 0 <= i, src.depth(i) > 0
    ensures src.has_more(i)
    decreases src.evs.len() - i
{
    if src.end is Ok {
        if i >= src.evs.len() {
            lemma_open_past(src, i);
            reveal(Src::wf);
        } else if is_sig(src.evs[i]) {
        } else {
            lemma_step(src, i);
            lemma_has_more(src, i + 1);
        }
    }
}
proof fn lemma_open_past(src: Src, i: int)
    requires i >= src.evs.len()
    ensures src.open(i) == src.open(src.evs.len() as int)
    decreases i
{
    if i > src.evs.len() { lemma_open_past(src, i - 1); }
}

/// Cutting the stack down to the depth leaves the open elements.
broadcast proof fn lemma_trim(s: RS)
    requires #[trigger] rinv(s)
    ensures
        s.stk.take(s.dep) == s.src.open(s.idx),
        s.dep <= s.stk.len() <= s.dep + 1,
        0 <= s.dep,
        trimmed(s) <==> s.stk.len() == s.dep,
{
    lemma_step(s.src, s.idx);
    assert(s.stk.len() == s.dep ==> s.stk.take(s.dep) =~= s.stk);
    if s.stk == s.src.open(s.idx) {
    } else {
        lemma_step(s.src, s.idx - 1);
        assert(s.stk.take(s.dep) =~= s.stk.drop_last());
    }
}

/// Nothing opens or closes before the event that `next` delivers.
broadcast proof fn lemma_next(a: RS, b: RS, r: Result<(Event, TextPosition), Error>)
    requires #[trigger] next_done(a, b, r), rinv(a)
    ensures
        b.idx > a.idx || (r is Err && a.idx == a.src.evs.len() + 1),
        forall|m: int| a.idx <= m < b.idx ==> #[trigger] a.src.open(m) == a.src.open(a.idx),
        r is Err ==> a.src.open(b.idx) == a.src.open(a.idx),
        r is Ok ==> {
            let e = a.src.evs[b.idx - 1];
            let o = a.src.open(a.idx);
            if is_start(e) { a.src.open(b.idx) == o.push(StackElement { name: e->StartElement_name, pos: a.src.pos_at(b.idx) }) }
            else if is_end(e) { o.len() > 0 && o.last().name == e->EndElement_name && a.src.open(b.idx) == o.drop_last() }
            else { a.src.open(b.idx) == o }
        },
{
    if r is Ok { lemma_skip(a.src, a.idx, b.idx - 1); lemma_step(a.src, b.idx - 1); }
    let n = if r is Ok { b.idx - 1 } else { a.src.evs.len() as int };
    assert forall|m: int| a.idx <= m < b.idx implies #[trigger] a.src.open(m) == a.src.open(a.idx) by {
        lemma_skip(a.src, a.idx, m);
    }
    if r is Err {
        lemma_open_past(a.src, b.idx);
        lemma_open_past(a.src, a.src.evs.len() as int);
        if a.idx <= a.src.evs.len() { lemma_skip(a.src, a.idx, a.src.evs.len() as int); }
    }
}

/// Content up to the event that `next` delivers, and up to where `return_to_depth` stops.
broadcast proof fn lemma_next_content(a: RS, b: RS, r: Result<(Event, TextPosition), Error>, d: int, i: int)
    requires next_done(a, b, r), rinv(a), i <= a.idx
    ensures
        #![trigger next_done(a, b, r), content(a.src, d, i, a.idx)]
        r is Ok ==> content(a.src, d, i, b.idx - 1) == content(a.src, d, i, a.idx),
        content(a.src, d, i, b.idx) == (match content_call(a.src, d, b.idx - 1) {
            Some(c) => content(a.src, d, i, a.idx).push(c),
            None => content(a.src, d, i, a.idx),
        }),
{
    let j = if r is Ok { b.idx - 1 } else { a.src.evs.len() as int };
    if a.idx <= j {
        lemma_content_skip(a.src, d, i, a.idx, j);
        if r is Err { lemma_content_skip(a.src, d, i, a.idx, b.idx); }
    }
}
broadcast proof fn lemma_next_text(a: RS, b: RS, r: Result<(Event, TextPosition), Error>, i: int)
    requires next_done(a, b, r), rinv(a), i <= a.idx
    ensures #![trigger next_done(a, b, r), text(a.src, i, a.idx)]
        r is Ok ==> {
            let e = a.src.evs[b.idx - 1];
            &&& text(a.src, i, b.idx - 1) == text(a.src, i, a.idx)
            &&& is_text(e) ==> text(a.src, i, b.idx) == text(a.src, i, a.idx) + text_of(e)@
            &&& flat(a.src, i, a.idx) ==> flat(a.src, i, b.idx - 1)
            &&& flat(a.src, i, a.idx) && is_text(e) ==> flat(a.src, i, b.idx)
        },
        r is Err ==> (flat(a.src, i, a.idx) ==> flat(a.src, i, a.src.evs.len() as int)),
{
    if r is Ok { lemma_text_skip(a.src, i, a.idx, b.idx - 1); }
}
proof fn lemma_text_skip(src: Src, i: int, j: int, k: int)
    requires i <= j <= k <= src.evs.len(), forall|m: int| j <= m < k ==> !is_sig(#[trigger] src.evs[m])
    ensures text(src, i, k) == text(src, i, j)
    decreases k - j
{
    if j < k { lemma_text_skip(src, i, j, k - 1); }
}
proof fn lemma_content_skip(src: Src, d: int, i: int, j: int, k: int)
    requires i <= j <= k, forall|m: int| j <= m < k ==> (#[trigger] content_call(src, d, m)) is None
    ensures content(src, d, i, k) == content(src, d, i, j)
    decreases k - j
{
    if j < k { lemma_content_skip(src, d, i, j, k - 1); assert(content_call(src, d, k - 1) is None); }
}
proof fn lemma_content_none(src: Src, d: int, i: int)
    ensures content(src, d, i, i) == Seq::<Call>::empty()
{ }
proof fn lemma_attr_calls(attrs: Seq<xml::attribute::OwnedAttribute>, n: int)
    ensures attr_calls(attrs, 0) == Seq::<Call>::empty()
{ }
proof fn lemma_extended_refl(a: Seq<Entry>)
    ensures extended(a, a, Seq::<Call>::empty())
{ assert(a.take(a.len() as int) =~= a); }
broadcast proof fn lemma_return_content(a: RS, b: RS, d: int, r: Result<(), Error>, i: int)
    requires return_done(a, b, d, r), i <= a.idx, r is Ok
    ensures #![trigger return_done(a, b, d, r), content(a.src, d, i, a.idx)]
        content(a.src, d, i, b.idx) == content(a.src, d, i, a.idx)
{
    assert forall|m: int| a.idx <= m < b.idx implies (#[trigger] content_call(a.src, d, m)) is None by {
        assert(a.src.depth(m) > d);
    }
    lemma_content_skip(a.src, d, i, a.idx, b.idx);
}
/// Elements open at a point stay open as long as their depth is not left.
proof fn lemma_below(src: Src, d: int, i: int, k: int)
    requires src.wf(), 0 <= i <= k, d >= 0, forall|m: int| i <= m <= k ==> #[trigger] src.depth(m) >= d
    ensures src.open(k).take(d) == src.open(i).take(d)
    decreases k - i
{
    if i < k {
        lemma_below(src, d, i, k - 1);
        lemma_step(src, k - 1);
        assert(src.depth(k) >= d && src.depth(k - 1) >= d);
        assert(src.open(k).take(d) =~= src.open(k - 1).take(d));
    }
}
broadcast proof fn lemma_return_open(a: RS, b: RS, d: int, r: Result<(), Error>)
    requires #[trigger] return_done(a, b, d, r), rinv(a), d >= 0, r is Ok
    ensures a.src.open(b.idx) == a.src.open(a.idx).take(d)
{
    assert(a.src.depth(b.idx) == d);
    assert forall|m: int| a.idx <= m <= b.idx implies #[trigger] a.src.depth(m) >= d by { }
    lemma_below(a.src, d, a.idx, b.idx);
    assert(a.src.open(b.idx).take(d) =~= a.src.open(b.idx));
}
broadcast proof fn lemma_advanced_open(a: RS, b: RS, d: int)
    requires #[trigger] advanced(a, b, d), rinv(a), d >= 0
    ensures a.src.open(b.idx).take(d) == a.src.open(a.idx).take(d)
{
    assert forall|m: int| a.idx <= m <= b.idx implies #[trigger] a.src.depth(m) >= d by {
        if m == b.idx { assert(b.dep == b.src.depth(b.idx)); }
    }
    lemma_below(a.src, d, a.idx, b.idx);
}
broadcast proof fn lemma_push_take<T>(s: Seq<T>, x: T, n: int)
    requires n == s.len()
    ensures #[trigger] s.push(x).take(n) == s
{ assert(s.push(x).take(n) =~= s); }
broadcast proof fn lemma_advanced_content(a: RS, b: RS, d: int, i: int)
    requires advanced(a, b, d), i <= a.idx
    ensures #![trigger advanced(a, b, d), content(a.src, d, i, a.idx)]
        content(a.src, d, i, b.idx) == content(a.src, d, i, a.idx)
{
    assert forall|m: int| a.idx <= m < b.idx implies (#[trigger] content_call(a.src, d, m)) is None by {
        assert(a.src.depth(m) > d);
    }
    lemma_content_skip(a.src, d, i, a.idx, b.idx);
}
broadcast group group_read_to {
    axiom_question_mark,
    lemma_trim, lemma_next, lemma_next_content, lemma_return_content, lemma_extend, lemma_extend2, lemma_extend_none,
    lemma_return_open, lemma_advanced_open, lemma_push_take, lemma_advanced_content
}
broadcast proof fn lemma_extend(a: Seq<Entry>, l: Seq<Entry>, c: Seq<Call>, e: Entry)
    requires #[trigger] extended(a, l, c), !(e.answer is Failed)
    ensures extended(a, #[trigger] l.push(e), c.push(e.call))
{
    let m = l.push(e);
    assert(m.take(a.len() as int) =~= l.take(a.len() as int));
    assert forall|i: int| 0 <= i < c.push(e.call).len() implies
        (#[trigger] m[a.len() + i]).call == c.push(e.call)[i] && !(m[a.len() + i].answer is Failed) by {
        if i < c.len() { assert(m[a.len() + i] == l[a.len() + i]); }
    }
}
broadcast proof fn lemma_extend2(a: Seq<Entry>, l: Seq<Entry>, c: Seq<Call>, d: Seq<Call>, e: Entry)
    requires #[trigger] extended(a, l, c + d), !(e.answer is Failed)
    ensures extended(a, #[trigger] l.push(e), c + d.push(e.call))
{
    lemma_extend(a, l, c + d, e);
    assert((c + d).push(e.call) =~= c + d.push(e.call));
}
broadcast proof fn lemma_extend_none(a: Seq<Entry>, l: Seq<Entry>, c: Seq<Call>)
    requires #[trigger] extended(a, l, c)
    ensures extended(a, l, c + Seq::<Call>::empty())
{
    assert(c + Seq::<Call>::empty() =~= c);
}

// ------------------------------------------------------------------- the reader
//@trait de ErasedReader
    spec fn st(&self) -> RS;
//@fn de next props=C02,C03,C04,C05,C06
    requires
        rinv(old(self).st()), trimmed(old(self).st()),
        old(self).st().src.has_more(old(self).st().idx),
    ensures
        next_done(old(self).st(), final(self).st(), r),
//@end
//@fn de return_to_depth props=C02,C03
    requires
        rinv(old(self).st()), old(self).st().dep >= depth,
    ensures
        return_done(old(self).st(), final(self).st(), depth as int, r),
//@end
//@fn de stack props=C04
    ensures r@ == self.st().stk
//@end
//@endimpl

/// `next` delivers exactly the next significant event, or the source's error.
pub open spec fn next_done(a: RS, b: RS, r: Result<(Event, TextPosition), Error>) -> bool {
    &&& rinv(b)
    &&& b.src == a.src
    &&& match r {
        Ok((ev, pos)) => {
            let j = b.idx - 1;
            &&& a.src.first_sig(a.idx, j)
            &&& pos == a.src.pos_at(j + 1)
            &&& match a.src.evs[j] {
                XmlEvent::StartElement { name, attributes, namespace } => ev == Event::StartElement { attributes, namespace } && trimmed(b),
                XmlEvent::EndElement { name } => ev == Event::EndElement { name } && b.stk == a.stk,
                e => ev == Event::Characters(text_of(e)) && trimmed(b),
            }
        }
        Err(e) => {
            &&& is_source_error(e, a.src)
            &&& trimmed(b)
            &&& b.idx == a.src.evs.len() + 1
            &&& forall|k: int| a.idx <= k < a.src.evs.len() ==> !is_sig(#[trigger] a.src.evs[k])
        }
    }
}

/// `return_to_depth` skips to exactly the point where the depth is reached first.
pub open spec fn return_done(a: RS, b: RS, d: int, r: Result<(), Error>) -> bool {
    &&& rinv(b)
    &&& b.src == a.src
    &&& trimmed(b)
    &&& match r {
        Ok(_) => a.src.returns(a.idx, d, b.idx),
        Err(e) => is_source_error(e, a.src) && b.idx == a.src.evs.len() + 1
            && (forall|m: int| a.idx <= m <= b.idx ==> #[trigger] a.src.depth(m) > d),
    }
}

impl<R: std::io::Read> Reader<R> {
    pub open spec fn state(&self) -> RS {
        RS { src: self.inner.src(), idx: self.inner.idx(), dep: self.depth as int, stk: self.stack@ }
    }
}

//@impl de "ErasedReader for Reader<T0>"
    open spec fn st(&self) -> RS { self.state() }
//@fn de next props=C02,C03,C04,C05,C06
//@at start
    broadcast use lemma_trim;
//@loop 0 kind=loop
    invariant
        rinv(self.state()), trimmed(self.state()),
        self.state().src == old(self).state().src,
        self.state().src.has_more(old(self).state().idx),
        self.state().stk == old(self).state().stk,
        self.state() == old(self).state() || old(self).state().idx <= self.state().idx <= self.state().src.evs.len(),
        forall|k: int| old(self).state().idx <= k < self.state().idx ==> !is_sig(#[trigger] self.state().src.evs[k]),
    decreases self.state().src.evs.len() - self.state().idx
//@at loop 0 start
    let ghost a = self.state();
    proof {
        lemma_step(a.src, a.idx);
        lemma_open_past(a.src, a.src.evs.len() as int + 1);
        if a.idx >= a.src.evs.len() {
            lemma_open_past(a.src, a.idx);
            let b = RS { src: a.src, idx: a.src.evs.len() as int + 1, dep: a.dep, stk: a.stk };
            assert(trimmed(b) && rinv(b));
        }
        assert(a.idx < a.src.evs.len() ==> !(a.src.evs[a.idx] is EndDocument)) by { reveal(Src::wf); }
    }
//@end
//@fn de return_to_depth props=C02,C03
//@at start
    broadcast use {lemma_trim, lemma_next};
//@loop 0 kind=while
    invariant
        rinv(self.state()), trimmed(self.state()),
        self.state().src == old(self).state().src,
        old(self).state().idx <= self.state().idx,
        self.state().dep >= depth,
        forall|m: int| old(self).state().idx <= m < self.state().idx ==> #[trigger] self.state().src.depth(m) > depth,
    decreases self.state().src.evs.len() + 1 - self.state().idx
//@at loop 0 start
    broadcast use {lemma_trim, lemma_next};
    let ghost a = self.state();
    proof { lemma_has_more(a.src, a.idx); }
//@end
//@fn de stack props=C04
//@end
//@endimpl


// ------------------------------------------------------------ element readers
//@impl de ElementReader
//@fn de name props=C11,C04
    requires self.stack_pos < self.reader.st().stk.len()
    ensures
        r.local_name@ == at(*self).stk[self.stack_pos as int].name.local_name@,
        xml::name::opt_str(r.namespace) == xml::name::opt_string(at(*self).stk[self.stack_pos as int].name.namespace),
        xml::name::opt_str(r.prefix) == xml::name::opt_string(at(*self).stk[self.stack_pos as int].name.prefix),
//@end
//@fn de namespace props=C02
    ensures *r == self.namespace
//@end
//@fn de expanded_name props=C11
    requires self.stack_pos < self.reader.st().stk.len()
    ensures (r.namespace@, r.local_name@) == expanded_owned(at(*self).stk[self.stack_pos as int].name)
//@end
//@fn de depth props=C04
    requires self.stack_pos < usize::MAX
    ensures r == self.stack_pos + 1
//@end
//@fn de read_to props=C02,C03,C04,C06,C13 attr=loop_isolation(false)
    requires
        fresh(self), old(visitor).inv(),
    ensures
        final(visitor).inv(), final(visitor).place() == old(visitor).place(),
        advanced(old(self.reader).st(), final(self.reader).st(), self.stack_pos as int),
        read_done(self, final(self.reader).st(), old(visitor).log(), final(visitor).log(), r),
//@at start
    broadcast use group_read_to;
    let ghost s0 = self.reader.st();
    let ghost log0 = visitor.log();
    let ghost place0 = visitor.place();
    let ghost attrs = self.attributes@;
    let ghost me = self;
    proof { lemma_attr_calls(attrs, 0); lemma_content_none(s0.src, s0.dep, s0.idx); lemma_extended_refl(log0); }
//@loop 0 kind=for iter=it
    invariant
        visitor.inv(), visitor.place() == place0,
        extended(log0, visitor.log(), attr_calls(attrs, it.index@)),
        it.seq() == attrs,
        s0 == at(me), attrs == me.attributes@, fresh(me),
        at(self) == s0, self.stack_pos == me.stack_pos, self.namespace == me.namespace,
        final(self.reader).st() == final(me.reader).st(),
        stack@ == s0.stk,
        element.pos == s0.stk.last().pos,
//@closure 0
    -> (r: Error) ensures is_wrapped(r, $0, stack@, element.pos)
//@loop 1 kind=loop
    invariant
        visitor.inv(), visitor.place() == place0,
        s0 == at(me), attrs == me.attributes@, fresh(me),
        self.stack_pos == me.stack_pos, self.namespace == me.namespace,
        final(self.reader).st() == final(me.reader).st(),
        rinv(at(self)), trimmed(at(self)),
        at(self).src == s0.src,
        at(self).dep == s0.dep,
        s0.idx <= at(self).idx,
        s0.src.open(at(self).idx) == s0.stk,
        forall|m: int| s0.idx <= m <= at(self).idx ==> #[trigger] s0.src.depth(m) >= s0.dep,
        extended(log0, visitor.log(), attr_calls(attrs, attrs.len() as int) + content(s0.src, s0.dep, s0.idx, at(self).idx)),
    decreases s0.src.evs.len() + 1 - at(self).idx
//@at loop 1 start
    broadcast use group_read_to;
    proof { lemma_has_more(s0.src, at(self).idx); }
//@closure 1
    -> (r: Error) ensures is_wrapped(r, VisitorError::Wrap($0), s0.stk, pos)
//@end
//@fn de read_string props=C05,C03,C04 attr=loop_isolation(false) attr2=allow_complex_invariants fmt0=vx_fmt_owned_name
    requires
        fresh(self),
    ensures
        advanced(old(self.reader).st(), final(self.reader).st(), self.stack_pos as int),
        string_done(self, final(self.reader).st(), r),
//@at start
    broadcast use {lemma_trim, lemma_next, lemma_next_text};
    let ghost s0 = at(self);
    let ghost me = self;
//@loop 0 kind=loop
    invariant_except_break
        trimmed(at(self)),
        s0.src.open(at(self).idx) == s0.stk,
        flat(s0.src, s0.idx, at(self).idx),
        out@ =~= text(s0.src, s0.idx, at(self).idx),
        forall|m: int| s0.idx <= m <= at(self).idx ==> #[trigger] s0.src.depth(m) >= s0.dep,
    invariant
        s0 == at(me), fresh(me),
        self.stack_pos == me.stack_pos,
        final(self.reader).st() == final(me.reader).st(),
        rinv(at(self)),
        at(self).src == s0.src,
        s0.idx <= at(self).idx,
    ensures
        s0.src.returns(s0.idx, s0.dep - 1, at(self).idx),
        is_end(s0.src.evs[at(self).idx - 1]),
        flat(s0.src, s0.idx, at(self).idx - 1),
        out@ == text(s0.src, s0.idx, at(self).idx - 1),
    decreases s0.src.evs.len() + 1 - at(self).idx
//@at loop 0 start
    broadcast use {lemma_trim, lemma_next, lemma_next_text};
    proof { lemma_has_more(s0.src, at(self).idx); }
//@end
//@endimpl

pub open spec fn attr_error(s0: RS, log0: Seq<Entry>, attrs: Seq<xml::attribute::OwnedAttribute>, log: Seq<Entry>, p: Error) -> bool {
    exists|l: Seq<Entry>, e: Entry, n: int| {
        &&& 0 <= n < attrs.len()
        &&& #[trigger] extended(log0, l, attr_calls(attrs, n))
        &&& log == #[trigger] l.push(e)
        &&& e.call == attr_call(attrs[n])
        &&& e.answer is Failed
        // the position of the element's start tag
        &&& is_wrapped(p, e.answer->Failed_0, s0.src.open(s0.idx), s0.src.open(s0.idx).last().pos)
    }
}
pub open spec fn content_error(s0: RS, s1: RS, log0: Seq<Entry>, attrs: Seq<xml::attribute::OwnedAttribute>, log: Seq<Entry>, p: Error) -> bool {
    exists|l: Seq<Entry>, e: Entry, j: int| {
        &&& s0.idx <= j < s0.src.evs.len()
        &&& forall|m: int| s0.idx <= m <= j ==> #[trigger] s0.src.depth(m) >= s0.dep
        &&& #[trigger] extended(log0, l, attr_calls(attrs, attrs.len() as int) + content(s0.src, s0.dep, s0.idx, j))
        &&& log == #[trigger] l.push(e)
        &&& e.answer is Failed
        &&& content_call(s0.src, s0.dep, j) == Some(e.call)
        &&& if is_text(s0.src.evs[j]) {
            &&& s1.idx == j + 1
            &&& is_wrapped(p, e.answer->Failed_0, s0.src.open(s0.idx), s0.src.pos_at(j + 1))
        } else {
            // the elements open where the handler stopped
            &&& s1.idx > j
            &&& forall|m: int| j < m < s1.idx ==> #[trigger] s0.src.depth(m) > s0.dep
            &&& is_wrapped(p, e.answer->Failed_0, s1.stk, s0.src.pos_at(j + 1))
        }
    }
}

/// What `read_to` promises: the visitor was called for exactly the element's own
/// attributes, children and character data, in order, up to its own end tag; or
/// up to the first failure, which is reported with its context.
pub open spec fn read_done(me: ElementReader<'_>, s1: RS, log0: Seq<Entry>, log: Seq<Entry>,
    r: Result<(xml::name::OwnedName, xml::namespace::Namespace, TextPosition), VisitorError>) -> bool
{
    let s0 = me.reader.st();
    let attrs = me.attributes@;
    match r {
        Ok((name, namespace, pos)) => {
            let k = s1.idx - 1;
            &&& s0.src.returns(s0.idx, s0.dep - 1, s1.idx)
            &&& extended(log0, log, attr_calls(attrs, attrs.len() as int) + content(s0.src, s0.dep, s0.idx, k))
            &&& is_end(s0.src.evs[k])
            &&& name == s0.src.evs[k]->EndElement_name
            &&& name == s0.src.open(s0.idx).last().name
            &&& namespace == me.namespace
            &&& pos == s0.src.pos_at(k + 1)
        }
        Err(VisitorError::Propagate(p)) => {
            ||| is_source_error(p, s0.src) && s1.idx == s0.src.evs.len() + 1 && exists|j: int| #[trigger] extended(log0, log, attr_calls(attrs, attrs.len() as int) + content(s0.src, s0.dep, s0.idx, j)) && s0.idx <= j
            ||| attr_error(s0, log0, attrs, log, p) && s1 == s0
            ||| content_error(s0, s1, log0, attrs, log, p)
        }
        Err(_) => false,
    }
}

/// The error names the child element whose start tag is event `j`.
pub open spec fn child_error(src: Src, j: int, p: Error) -> bool {
    &&& is_start(src.evs[j])
    &&& p.0.kind is Msg
    &&& mentions(p.0.kind->Msg_0@, src.evs[j]->StartElement_name)
    &&& p.0.stack@ =~= src.open(j + 1)
    &&& p.0.pos == src.pos_at(j + 1)
}
broadcast proof fn lemma_string_done(me: ElementReader<'_>, s1: RS, r: Result<String, VisitorError>)
    requires #[trigger] string_done(me, s1, r), fresh(me)
    ensures ({
        let s0 = at(me);
        match r {
            Ok(s) => text_element(s0.src, s0.idx, s1.idx - 1) && s@ == text(s0.src, s0.idx, s1.idx - 1),
            Err(VisitorError::Propagate(p)) => text_error(s0.src, s0.idx, p),
            Err(_) => false,
        }
    })
{ }
/// What `read_string` promises.
pub open spec fn string_done(me: ElementReader<'_>, s1: RS, r: Result<String, VisitorError>) -> bool
{
    let s0 = me.reader.st();
    let src = s0.src;
    match r {
        Ok(s) => {
            let k = s1.idx - 1;
            &&& src.returns(s0.idx, s0.dep - 1, s1.idx)
            &&& is_end(src.evs[k])
            &&& flat(src, s0.idx, k)
            &&& s@ == text(src, s0.idx, k)
        }
        Err(VisitorError::Propagate(p)) => {
            ||| is_source_error(p, src) && s1.idx == src.evs.len() + 1 && flat(src, s0.idx, src.evs.len() as int)
            ||| {
                // the first child element
                let j = s1.idx - 1;
                &&& s0.idx <= j < src.evs.len()
                &&& flat(src, s0.idx, j)
                &&& child_error(src, j, p)
            }
        }
        Err(_) => false,
    }
}

// ------------------------------------------------------------ handlers
//@trait de ElementVisitor
    /// The calls made to it so far and its answers.
    spec fn log(&self) -> Seq<Entry>;
    /// Its own invariant.
    spec fn inv(&self) -> bool;
    /// Where its result goes.
    #[verifier::prophetic]
    spec fn place(&self) -> Place;
//@fn de attribute props=C02 nobody=1
    requires
        old(self).inv(),
    ensures
        final(self).inv(), final(self).place() == old(self).place(),
        final(self).log() == old(self).log().push(Entry {
            call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) }),
//@end
//@fn de element props=C02 nobody=1
    requires
        old(self).inv(),
        fresh(child),
    ensures
        final(self).inv(), final(self).place() == old(self).place(),
        final(self).log() == old(self).log().push(Entry {
            call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) }),
        match r {
            // passed on: the very same child, untouched
            Ok(Some(c)) => c == child && (has_resolved(r) ==> has_resolved(c.reader))
                && (has_resolved(c.reader) ==> final(c.reader).st() == (*c.reader).st()),
            _ => advanced(old(child.reader).st(), final(child.reader).st(), child.stack_pos as int),
        },
//@end
//@fn de characters props=C02 nobody=1
    requires
        old(self).inv(),
    ensures
        final(self).inv(), final(self).place() == old(self).place(),
        final(self).log() == old(self).log().push(Entry { call: Call::Chars { s: s@, pos }, answer: answer_chars(r) }),
//@end
//@endimpl


/// What a handler does unless it overrides the method: pass everything on.
/// (The default bodies of the trait, as functions of a type of their own.)
pub struct VxDefault { pub log: Ghost<Seq<Entry>> }
impl VxDefault {
//@fn de "trait ElementVisitor::attribute" key="ElementVisitor::attribute (default)" props=C12
    ensures r matches Ok(Some(v)) && v@ == value@, *final(self) == *old(self)
//@end
//@fn de "trait ElementVisitor::element" key="ElementVisitor::element (default)" props=C12
    ensures r matches Ok(Some(c)) && c == child, *final(self) == *old(self)
//@end
//@fn de "trait ElementVisitor::characters" key="ElementVisitor::characters (default)" props=C12
    ensures r matches Ok(Some(v)) && v@ == s@, *final(self) == *old(self)
//@end
}


// ------------------------------------------------------------ flattened fields
/// `slice[i]` as a mutable place.
#[verifier::external_body]
pub fn vx_get_mut<'a, T>(s: &'a mut [T], i: usize) -> (r: &'a mut T)
    requires i < old(s)@.len()
    ensures *r == old(s)@[i as int], final(s)@ == old(s)@.update(i as int, *final(r))
{ unimplemented!() }

pub open spec fn logs(ff: Seq<&mut dyn ElementVisitor>) -> Seq<Seq<Entry>> {
    Seq::new(ff.len(), |i: int| (*ff[i]).log())
}
pub open spec fn all_inv(ff: Seq<&mut dyn ElementVisitor>) -> bool {
    forall|i: int| 0 <= i < ff.len() ==> (*#[trigger] ff[i]).inv()
}
/// The same handlers, their results going to the same places.
#[verifier::prophetic]
pub open spec fn kept(a: Seq<&mut dyn ElementVisitor>, b: Seq<&mut dyn ElementVisitor>) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| 0 <= i < a.len() ==> {
        &&& (*#[trigger] b[i]).inv()
        &&& (*b[i]).place() == (*a[i]).place()
        &&& final(b[i]).log() == final(a[i]).log()
        &&& final(b[i]).inv() == final(a[i]).inv()
        &&& final(b[i]).place() == final(a[i]).place()
    }
}
/// The first `k` handlers were each offered what the previous one passed on,
/// beginning with `vs[0]`, and passed it on as the next of `vs`.
pub open spec fn passed_on(a: Seq<Seq<Entry>>, b: Seq<Seq<Entry>>, mk: spec_fn(Seq<char>) -> Call, vs: Seq<Seq<char>>, k: int) -> bool {
    &&& vs.len() == k + 1
    &&& a.len() == b.len() && 0 <= k <= a.len()
    &&& forall|i: int| 0 <= i < k ==> #[trigger] b[i] == a[i].push(Entry { call: mk(vs[i]), answer: Answer::Passed(vs[i + 1]) })
}
/// The handlers from `k` on were not called.
pub open spec fn untouched(a: Seq<Seq<Entry>>, b: Seq<Seq<Entry>>, k: int) -> bool {
    forall|i: int| k <= i < a.len() ==> #[trigger] b[i] == a[i]
}
/// What delegation promises: offered in order until one takes it or fails, whose
/// answer is the answer; otherwise the last passed-on value is handed back.
pub open spec fn delegated(a: Seq<Seq<Entry>>, b: Seq<Seq<Entry>>, mk: spec_fn(Seq<char>) -> Call, v0: Seq<char>, ans: Answer) -> bool {
    exists|k: int, vs: Seq<Seq<char>>| {
        &&& #[trigger] passed_on(a, b, mk, vs, k)
        &&& vs[0] == v0
        &&& if k == a.len() {
            ans == Answer::Passed(vs[k])
        } else {
            &&& b[k] == a[k].push(Entry { call: mk(vs[k]), answer: ans })
            &&& !(ans is Passed)
            &&& untouched(a, b, k + 1)
        }
    }
}
/// One more handler was called: number `k`.
proof fn lemma_pass(a: Seq<Seq<Entry>>, b0: Seq<Seq<Entry>>, b: Seq<Seq<Entry>>, mk: spec_fn(Seq<char>) -> Call, vs: Seq<Seq<char>>, k: int)
    requires
        0 <= k < a.len(), passed_on(a, b0, mk, vs, k), untouched(a, b0, k),
        b.len() == b0.len(),
        forall|i: int| 0 <= i < b.len() && i != k ==> #[trigger] b[i] == b0[i],
        b[k] == b0[k].push(b[k].last()),
    ensures
        passed_on(a, b, mk, vs, k), untouched(a, b, k + 1),
        b[k].last().call == mk(vs[k]) && b[k].last().answer is Passed ==> passed_on(a, b, mk, vs.push(b[k].last().answer->Passed_0), k + 1),
{
    assert forall|i: int| 0 <= i < k implies #[trigger] b[i] == a[i].push(Entry { call: mk(vs[i]), answer: Answer::Passed(vs[i + 1]) }) by {
        assert(b[i] == b0[i]);
    }
    assert forall|i: int| k + 1 <= i < a.len() implies #[trigger] b[i] == a[i] by { assert(b0[i] == a[i]); }
}
/// The handler that was called last, number `k`, did not pass it on.
broadcast proof fn lemma_stop(a: Seq<Seq<Entry>>, b0: Seq<Seq<Entry>>, b: Seq<Seq<Entry>>, mk: spec_fn(Seq<char>) -> Call, vs: Seq<Seq<char>>, k: int, v0: Seq<char>, ans: Answer)
    requires
        #[trigger] passed_on(a, b0, mk, vs, k), untouched(a, b0, k),
        k < a.len(), vs[0] == v0, b.len() == b0.len(),
        forall|i: int| 0 <= i < b.len() && i != k ==> #[trigger] b[i] == b0[i],
        b[k] == b0[k].push(Entry { call: mk(vs[k]), answer: ans }),
        !(ans is Passed),
    ensures
        #[trigger] delegated(a, b, mk, v0, ans)
{
    assert(b0[k] == a[k]);
    assert(b[k].last() == Entry { call: mk(vs[k]), answer: ans });
    lemma_pass(a, b0, b, mk, vs, k);
}
//@fn de delegate_attribute props=C12 attr=loop_isolation(false)
    requires
        all_inv(old(flatten_fields)@),
    ensures
        kept(old(flatten_fields)@, final(flatten_fields)@),
        delegated(logs(old(flatten_fields)@), logs(final(flatten_fields)@),
            |v: Seq<char>| Call::Attr { ns: name.namespace@, local: name.local_name@, value: v }, value@, answer_text(r)), //# C12
//@at start
    let ghost ff0 = flatten_fields@;
    let ghost f0 = logs(flatten_fields@);
    let ghost mk = |v: Seq<char>| Call::Attr { ns: name.namespace@, local: name.local_name@, value: v };
    let ghost v0 = value@;
    let ghost mut vs = seq![v0];
    broadcast use lemma_stop;
    broadcast use lemma_stop;
//@loop 0 slicemut=1
    invariant
        vx_i_0 <= vx_n_0, vx_n_0 == flatten_fields@.len(), vx_n_0 == f0.len(),
        passed_on(f0, logs(flatten_fields@), mk, vs, vx_i_0 as int),
        untouched(f0, logs(flatten_fields@), vx_i_0 as int),
        all_inv(flatten_fields@), kept(ff0, flatten_fields@),
        vs[0] == v0, vs[vx_i_0 as int] == value@,
    decreases vx_n_0 - vx_i_0
//@at loop 0 end
    proof {
        lemma_pass(f0, b0, logs(flatten_fields@), mk, vs, vx_i_0 - 1);
        vs = vs.push(value@);
    }
//@at loop 0 start
    let ghost b0 = logs(flatten_fields@);
//@end
//@fn de delegate_element props=C12 attr=loop_isolation(false)
    requires
        fresh(child), all_inv(old(flatten_fields)@),
    ensures
        kept(old(flatten_fields)@, final(flatten_fields)@),
        delegated(logs(old(flatten_fields)@), logs(final(flatten_fields)@),
            |v: Seq<char>| Call::Elem { src: at(child).src, at: at(child).idx }, Seq::<char>::empty(), answer_element(r)), //# C12
        match r {
            Ok(Some(c)) => c == child && (has_resolved(r) ==> has_resolved(c.reader))
                && (has_resolved(c.reader) ==> final(c.reader).st() == (*c.reader).st()),
            _ => advanced(old(child.reader).st(), final(child.reader).st(), child.stack_pos as int), //# C12
        },
//@at start
    let ghost ff0 = flatten_fields@;
    let ghost f0 = logs(flatten_fields@);
    let ghost mk = |v: Seq<char>| Call::Elem { src: at(child).src, at: at(child).idx };
    let ghost v0 = Seq::<char>::empty();
    let ghost mut vs = seq![v0];
    let ghost child0 = child;
    broadcast use lemma_stop;
//@loop 0 slicemut=1
    invariant
        vx_i_0 <= vx_n_0, vx_n_0 == flatten_fields@.len(), vx_n_0 == f0.len(),
        passed_on(f0, logs(flatten_fields@), mk, vs, vx_i_0 as int),
        untouched(f0, logs(flatten_fields@), vx_i_0 as int),
        all_inv(flatten_fields@), kept(ff0, flatten_fields@),
        vs[0] == v0, vs[vx_i_0 as int] == v0,
        child == child0,
    decreases vx_n_0 - vx_i_0
//@at loop 0 end
    proof {
        lemma_pass(f0, b0, logs(flatten_fields@), mk, vs, vx_i_0 - 1);
        vs = vs.push(v0);
    }
//@at loop 0 start
    let ghost b0 = logs(flatten_fields@);
//@end
//@fn de delegate_characters props=C12 attr=loop_isolation(false)
    requires
        all_inv(old(flatten_fields)@),
    ensures
        kept(old(flatten_fields)@, final(flatten_fields)@),
        delegated(logs(old(flatten_fields)@), logs(final(flatten_fields)@),
            |v: Seq<char>| Call::Chars { s: v, pos }, s@, answer_chars(r)), //# C12
//@at start
    let ghost ff0 = flatten_fields@;
    let ghost f0 = logs(flatten_fields@);
    let ghost mk = |v: Seq<char>| Call::Chars { s: v, pos };
    let ghost v0 = s@;
    let ghost mut vs = seq![v0];
    broadcast use lemma_stop;
    broadcast use lemma_stop;
//@loop 0 slicemut=1
    invariant
        vx_i_0 <= vx_n_0, vx_n_0 == flatten_fields@.len(), vx_n_0 == f0.len(),
        passed_on(f0, logs(flatten_fields@), mk, vs, vx_i_0 as int),
        untouched(f0, logs(flatten_fields@), vx_i_0 as int),
        all_inv(flatten_fields@), kept(ff0, flatten_fields@),
        vs[0] == v0, vs[vx_i_0 as int] == s@,
    decreases vx_n_0 - vx_i_0
//@at loop 0 end
    proof {
        lemma_pass(f0, b0, logs(flatten_fields@), mk, vs, vx_i_0 - 1);
        vs = vs.push(s@);
    }
//@at loop 0 start
    let ghost b0 = logs(flatten_fields@);
//@end
// ------------------------------------------------------------ documents
//@trait de Deserialize
    /// `r` is an outcome of deserializing the element whose start tag is event `i - 1`.
    spec fn reads(src: Src, i: int, r: Result<Self, VisitorError>) -> bool;
//@fn de deserialize props=C03,C06
    requires
        fresh(element),
    ensures
        advanced(old(element.reader).st(), final(element.reader).st(), element.stack_pos as int),
        Self::reads(at(element).src, at(element).idx, r),
//@end
//@endimpl

/// `&mut Reader<R>` as `&mut dyn ErasedReader`.
#[verifier::external_body]
pub fn vx_as_dyn<'a, R: std::io::Read>(r: &'a mut Reader<R>) -> (o: &'a mut dyn ErasedReader)
    ensures (*o).st() == (*old(r)).state(), final(o).st() == final(r).state()
{ unimplemented!() }

//@impl de Reader<T0>
//@fn de new props=C03
    ensures
        r.state().src == src_of(source), r.state().idx == 0,
        rinv(r.state()), trimmed(r.state()),
//@end
//@fn de root props=C03,C04 wrapfield.reader=vx_as_dyn
    requires
        old(self).state().idx == 0, rinv(old(self).state()), trimmed(old(self).state()),
    ensures
        match r {
            Ok(e) => {
                &&& fresh(e)
                &&& e.stack_pos == 0
                &&& at(e).src == old(self).state().src
                &&& root_start(at(e).src, at(e).idx - 1)
                &&& final(e.reader).st() == final(self).state()
            }
            Err(e) => final(self).state().src == old(self).state().src && root_error(old(self).state().src, e),
        },
//@at start
    broadcast use {lemma_trim, lemma_next};
    let ghost s0 = self.state();
    proof { lemma_root(s0.src); lemma_step(s0.src, 0); }
//@at before call next#1
    proof { lemma_root_more(s0.src); }
//@closure 0
    -> (r: Error) ensures r.0.kind == ErrorKind::Xml($0), r.0.stack@ =~= Seq::<StackElement>::empty(), r.0.pos == $0.pos()
//@end
//@fn de end props=C03,C04 attr=loop_isolation(false)
    requires
        rinv(self.state()),
    ensures
        match r {
            Ok(_) => document_end(self.state().src, self.state().idx),
            Err(e) => is_source_error(e, self.state().src)
                || e.0.kind is Msg && e.0.stack@.len() == 0 && !document_end(self.state().src, self.state().idx),
        },
//@at start
    broadcast use {lemma_trim, lemma_next};
    let ghost s0 = self.state();
    proof { lemma_step(s0.src, s0.idx); }
//@at after call return_to_depth#0
    let ghost k = self.state().idx;
    proof { lemma_step(s0.src, k); }
//@closure 0
    -> (r: Error) ensures r.0.kind == ErrorKind::Xml($0), r.0.stack@ =~= Seq::<StackElement>::empty(), r.0.pos == $0.pos()
//@loop 0 kind=loop
    invariant
        self.state().src == s0.src, s0.src.wf(), s0.idx <= k, 0 <= s0.idx,
        s0.src.returns(s0.idx, 0, k), k <= s0.src.evs.len() + 1,
        self.state().idx == k || k <= self.state().idx <= s0.src.evs.len(),
        s0.src.open(self.state().idx) == Seq::<StackElement>::empty(),
        forall|m: int| k <= m < self.state().idx && m < s0.src.evs.len() ==> is_misc(#[trigger] s0.src.evs[m]),
    decreases s0.src.evs.len() - self.state().idx
//@at loop 0 start
    proof {
        lemma_step(s0.src, self.state().idx);
        if self.state().idx >= s0.src.evs.len() { lemma_open_past(s0.src, self.state().idx); }
        assert(self.state().idx < s0.src.evs.len() ==> !(s0.src.evs[self.state().idx] is EndDocument)) by { reveal(Src::wf); }
    }
//@end
//@fn de pos props=C04
    ensures r == self.state().src.pos_at(self.state().idx)
//@end
//@endimpl

/// Event `j` is the root element's start tag, and only comments and processing
/// instructions come between it and the document's start.
pub open spec fn root_start(src: Src, j: int) -> bool {
    &&& 0 < j < src.evs.len()
    &&& src.evs[0] is StartDocument
    &&& is_start(src.evs[j])
    &&& forall|k: int| 0 < k < j ==> is_misc(#[trigger] src.evs[k])
}
pub open spec fn root_error(src: Src, e: Error) -> bool {
    ||| is_source_error(e, src)
    ||| e.0.kind is Msg && e.0.stack@.len() == 0 && !(exists|j: int| root_start(src, j))
}


/// From event `i` on the source leaves the open elements, then only has comments
/// and processing instructions up to its proper end.
pub open spec fn document_end(src: Src, i: int) -> bool {
    exists|k: int| #[trigger] src.returns(i, 0, k) && src.end is Ok
        && forall|m: int| k <= m < src.evs.len() ==> is_misc(#[trigger] src.evs[m])
}
proof fn lemma_root(src: Src)
    requires src.wf()
    ensures
        src.evs.len() == 0 ==> src.end is Err,
        src.evs.len() > 0 ==> !(src.evs[0] is EndDocument),
{ reveal(Src::wf); }
proof fn lemma_root_more(src: Src)
    requires src.wf()
    ensures
        src.evs.len() > 0 && src.evs[0] is StartDocument ==> src.has_more(1),
        forall|k: int| 0 < k < src.evs.len() && !is_sig(#[trigger] src.evs[k]) ==> is_misc(src.evs[k]),
{ reveal(Src::wf); }
proof fn lemma_complete(src: Src, j: int, i: int)
    requires
        src.wf(),
        root_start(src, j), j < i,
        src.depth(j) == 0,
        forall|m: int| j < m < i ==> #[trigger] src.depth(m) > 0,
        document_end(src, i),
    ensures exists|e: int| #[trigger] complete(src, j, e)
{
    let k = choose|k: int| #[trigger] src.returns(i, 0, k) && src.end is Ok
        && forall|m: int| k <= m < src.evs.len() ==> is_misc(#[trigger] src.evs[m]);
    lemma_step(src, j);
    lemma_step(src, k - 1);
    assert(src.depth(j + 1) == 1);
    assert(src.depth(k) == 0);
    assert(k > j + 1) by { if i == j + 1 && k == i { } }
    assert(src.depth(k - 1) > 0);
    assert(complete(src, j, k - 1));
}

proof fn lemma_depth_zero(src: Src, j: int)
    requires src.wf(), root_start(src, j)
    ensures src.depth(j) == 0
{
    lemma_skip(src, 0, 1);
    lemma_skip(src, 0, j);
}
/// Success of `end` behind the root element is the same as a complete document.
proof fn lemma_document(src: Src, j: int, i: int)
    requires
        src.wf(), root_start(src, j), j < i, src.depth(j) == 0,
        forall|m: int| j < m < i ==> #[trigger] src.depth(m) > 0,
    ensures
        document_end(src, i) <==> exists|e: int| #[trigger] complete(src, j, e),
{
    if document_end(src, i) { lemma_complete(src, j, i); }
    if exists|e: int| #[trigger] complete(src, j, e) {
        let e = choose|e: int| #[trigger] complete(src, j, e);
        assert(src.returns(i, 0, e + 1));
    }
}

//@fn de read props=C03,C04
    ensures
        ({
            let src = src_of(source);
            match r {
                Ok(v) => exists|s: int, e: int| #[trigger] complete(src, s, e) && D::reads(src, s + 1, Ok(v)),
                Err(e) => root_error(src, e) || is_source_error(e, src)
                    || exists|s: int| #[trigger] root_start(src, s) && {
                        ||| e.0.kind is Msg && !(exists|k: int| complete(src, s, k))
                        ||| exists|a: RS, b: RS, v: VisitorError| a.src == src && a.idx == s + 1 && #[trigger] advanced(a, b, 0)
                            && D::reads(src, s + 1, Err(v)) && #[trigger] is_wrapped(e, v, b.stk, src.pos_at(b.idx))
                    },
            }
        }),
//@closure 0
    -> (r: Error) ensures is_wrapped(r, $0, reader.state().stk, reader.state().src.pos_at(reader.state().idx))
//@at before call end#0
    proof {
        let src = src_of(source);
        let a = choose|a: RS| a.src == src && root_start(src, a.idx - 1) && #[trigger] advanced(a, reader.state(), 0)
            && D::reads(src, a.idx, Ok(v));
        lemma_depth_zero(src, a.idx - 1);
        lemma_document(src, a.idx - 1, reader.state().idx);
        assert(root_start(src, a.idx - 1));
    }
//@end

pub open spec fn from_bytes(s: Src) -> bool { true }
//@method as_bytes vx_as_bytes ref
/// `str::as_bytes`
#[verifier::external_body]
pub fn vx_as_bytes<'a>(s: &&'a str) -> (r: &'a [u8])
    ensures r@ == encode_utf8((*s)@)
{ unimplemented!() }
//@fn de from_str props=C03,C04
    ensures
        exists|b: &[u8]| b@ == encode_utf8(source@) && #[trigger] from_bytes(src_of(b)) && ({
            let src = src_of(b);
            match r {
                Ok(v) => exists|s: int, e: int| #[trigger] complete(src, s, e) && D::reads(src, s + 1, Ok(v)),
                Err(e) => root_error(src, e) || is_source_error(e, src)
                    || exists|s: int| #[trigger] root_start(src, s) && {
                        ||| e.0.kind is Msg && !(exists|k: int| complete(src, s, k))
                        ||| exists|a: RS, b: RS, v: VisitorError| a.src == src && a.idx == s + 1 && #[trigger] advanced(a, b, 0)
                            && D::reads(src, s + 1, Err(v)) && #[trigger] is_wrapped(e, v, b.stk, src.pos_at(b.idx))
                    },
            }
        }),
//@at start
    proof { assert forall|b: &[u8]| from_bytes(src_of(b)) by { } }
//@end


// ------------------------------------------------------------ names in tables
/// `<[ExpandedNameRef]>::binary_search` with the derived order (see `needs=` above).
#[verifier::external_body]
pub fn vx_binary_search(s: &[ExpandedNameRef<'_>], x: &ExpandedNameRef<'_>) -> (r: Result<usize, usize>)
    requires names_sorted(s@)
    ensures match r {
        Ok(i) => i < s@.len() && name_of(s@[i as int]) == name_of(*x),
        Err(_) => forall|i: int| 0 <= i < s@.len() ==> name_of(#[trigger] s@[i]) != name_of(*x),
    }
{ unimplemented!() }
//@method binary_search vx_binary_search val args
//@fn de find props=C11
    requires names_sorted(sorted_slice@)
    ensures match r { //# C11
        Some(i) => i < sorted_slice@.len() && name_of(sorted_slice@[i as int]) == name_of(*name),
        None => forall|i: int| 0 <= i < sorted_slice@.len() ==> name_of(#[trigger] sorted_slice@[i]) != name_of(*name),
    }
//@at start
    proof { reveal(names_sorted); }
//@end

// ------------------------------------------------------------ fields
//@trait de DeserializeElementField
    /// `r` is an outcome of reading the field's first occurrence, whose start tag is event `i - 1`.
    spec fn inits(src: Src, i: int, r: Result<Self, VisitorError>) -> bool;
    /// `r` is an outcome of reading a further occurrence into `old`, leaving `new`.
    spec fn updates(old: Self, new: Self, src: Src, i: int, r: Result<(), VisitorError>) -> bool;
    /// `r` is the outcome for a field that does not occur.
    spec fn misses(r: Result<Self, VisitorError>) -> bool;
//@fn de init props=C06
    requires
        fresh(element),
    ensures
        advanced(old(element.reader).st(), final(element.reader).st(), element.stack_pos as int),
        Self::inits(at(element).src, at(element).idx, r),
//@end
//@fn de update props=C06
    requires
        fresh(element),
    ensures
        advanced(old(element.reader).st(), final(element.reader).st(), element.stack_pos as int),
        Self::updates(*old(self), *final(self), at(element).src, at(element).idx, r),
//@end
//@fn de missing props=C06
    ensures
        Self::misses(r),
//@end
//@endimpl

//@impl de "DeserializeElementField for T0"
    open spec fn inits(src: Src, i: int, r: Result<Self, VisitorError>) -> bool { T::reads(src, i, r) }
    open spec fn updates(old: Self, new: Self, src: Src, i: int, r: Result<(), VisitorError>) -> bool { new == old && r matches Err(VisitorError::Wrap(_)) }
    open spec fn misses(r: Result<Self, VisitorError>) -> bool { r matches Err(VisitorError::Wrap(_)) }
//@fn de init props=C06
//@end
//@fn de update props=C06
//@end
//@fn de missing props=C06
//@end
//@endimpl

//@impl de "DeserializeElementField for Option<T0>"
    open spec fn inits(src: Src, i: int, r: Result<Self, VisitorError>) -> bool {
        match r {
            Ok(Some(v)) => T::reads(src, i, Ok(v)),
            Ok(None) => false,
            Err(e) => T::reads(src, i, Err(e)),
        }
    }
    open spec fn updates(old: Self, new: Self, src: Src, i: int, r: Result<(), VisitorError>) -> bool { new == old && r matches Err(VisitorError::Wrap(_)) }
    open spec fn misses(r: Result<Self, VisitorError>) -> bool { r == Ok::<Self, VisitorError>(None) }
//@fn de init props=C06
//@end
//@fn de update props=C06
//@end
//@fn de missing props=C06
//@end
//@endimpl

/// A repeated field: one value per occurrence, in order, none dropped.
//@impl de "DeserializeElementField for Vec<T0>"
    open spec fn inits(src: Src, i: int, r: Result<Self, VisitorError>) -> bool {
        match r {
            Ok(l) => l@.len() == 1 && T::reads(src, i, Ok(l@[0])),
            Err(e) => T::reads(src, i, Err(e)),
        }
    }
    open spec fn updates(old: Self, new: Self, src: Src, i: int, r: Result<(), VisitorError>) -> bool {
        match r {
            Ok(_) => new@.len() == old@.len() + 1 && new@.drop_last() =~= old@ && T::reads(src, i, Ok(new@.last())),
            Err(e) => new@ == old@ && T::reads(src, i, Err(e)),
        }
    }
    open spec fn misses(r: Result<Self, VisitorError>) -> bool { r matches Ok(l) && l@.len() == 0 }
//@fn de init props=C06
//@end
//@fn de update props=C06
//@end
//@fn de missing props=C06
//@end
//@endimpl

//@trait de DeserializeAttrField
    spec fn inits(value: Seq<char>, r: Result<Self, VisitorError>) -> bool;
    spec fn misses(r: Result<Self, VisitorError>) -> bool;
//@fn de init props=C06
    ensures Self::inits(value@, r)
//@end
//@fn de missing props=C06
    ensures Self::misses(r)
//@end
//@endimpl

//@trait de ParseText
    /// `r` is an outcome of parsing `text`.
    spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool;
//@fn de parse props=C06,C07
    ensures Self::parses(text@, r)
//@end
//@endimpl

//@impl de "DeserializeAttrField for T0"
    open spec fn inits(value: Seq<char>, r: Result<Self, VisitorError>) -> bool {
        match r {
            Ok(v) => T::parses(value, Ok(v)),
            Err(VisitorError::Wrap(e)) => T::parses(value, Err(e)),
            Err(_) => false,
        }
    }
    open spec fn misses(r: Result<Self, VisitorError>) -> bool { r matches Err(VisitorError::Wrap(_)) }
//@fn de init props=C06
//@end
//@fn de missing props=C06
//@end
//@endimpl

//@impl de "DeserializeAttrField for Option<T0>"
    open spec fn inits(value: Seq<char>, r: Result<Self, VisitorError>) -> bool {
        match r {
            Ok(Some(v)) => T::parses(value, Ok(v)),
            Ok(None) => false,
            Err(VisitorError::Wrap(e)) => T::parses(value, Err(e)),
            Err(_) => false,
        }
    }
    open spec fn misses(r: Result<Self, VisitorError>) -> bool { r == Ok::<Self, VisitorError>(None) }
//@fn de init props=C06
//@end
//@fn de missing props=C06
//@end
//@endimpl

/// The element whose content begins at event `i` ends at event `k` and has no child element.
pub open spec fn text_element(src: Src, i: int, k: int) -> bool {
    src.returns(i, src.depth(i) - 1, k + 1) && is_end(src.evs[k]) && flat(src, i, k)
}
pub open spec fn text_error(src: Src, i: int, p: Error) -> bool {
    ||| is_source_error(p, src) && flat(src, i, src.evs.len() as int)
    ||| exists|j: int| i <= j < src.evs.len() && #[trigger] flat(src, i, j) && child_error(src, j, p)
}
//@impl de "Deserialize for T0"
    open spec fn reads(src: Src, i: int, r: Result<Self, VisitorError>) -> bool {
        match r {
            Ok(v) => exists|k: int| #[trigger] text_element(src, i, k) && T::parses(text(src, i, k), Ok(v)),
            Err(VisitorError::Wrap(e)) => exists|k: int| #[trigger] text_element(src, i, k) && T::parses(text(src, i, k), Err(e)),
            Err(VisitorError::Propagate(p)) => text_error(src, i, p),
        }
    }
//@fn de deserialize props=C05,C06,C07
//@at start
    broadcast use lemma_string_done;
//@end
//@endimpl
