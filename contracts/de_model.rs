// Ghost definitions the contracts on static-xml/src/de/mod.rs are written in.

/// State of a reader: position in its source, open elements.
pub ghost struct RS {
    pub src: Src,
    pub idx: int,
    pub dep: int,
    pub stk: Seq<StackElement>,
}

/// Invariant of `Reader` (see its `depth` and `stack` fields): the stack holds the
/// open elements, or those that were open before the end tag just delivered.
pub open spec fn rinv(s: RS) -> bool {
    &&& s.src.wf()
    &&& 0 <= s.idx <= s.src.evs.len() + 1
    &&& s.dep == s.src.depth(s.idx)
    &&& s.stk == s.src.open(s.idx) || s.idx <= s.src.evs.len() && s.idx > 0 && is_end(s.src.evs[s.idx - 1]) && s.stk == s.src.open(s.idx - 1)
}
/// The stack was trimmed to the open elements.
pub open spec fn trimmed(s: RS) -> bool { s.stk == s.src.open(s.idx) }

/// A handler of an element whose parent is at depth `d` may leave the reader
/// anywhere inside that element or right behind it, but nowhere else.
pub open spec fn advanced(a: RS, b: RS, d: int) -> bool {
    &&& rinv(b)
    &&& b.src == a.src
    &&& a.idx <= b.idx
    &&& b.dep >= d
    &&& forall|m: int| a.idx <= m < b.idx ==> #[trigger] a.src.depth(m) > d
}

/// The error is the source's own, with the elements open there.
pub open spec fn is_source_error(e: Error, src: Src) -> bool {
    &&& src.end is Err
    &&& e.0.kind == ErrorKind::Xml(src.end->Err_0)
    &&& e.0.pos == src.end->Err_0.pos()
    &&& e.0.stack@ =~= src.open(src.evs.len() as int)
}

/// `e` is `v` with context: an error that has context already is unchanged.
pub open spec fn is_wrapped(e: Error, v: VisitorError, stk: Seq<StackElement>, pos: TextPosition) -> bool {
    match v {
        VisitorError::Propagate(p) => e == p,
        VisitorError::Wrap(b) => e.0.kind == ErrorKind::Deserializer(b) && e.0.stack@ =~= stk && e.0.pos == pos,
    }
}

/// Where a handler will leave its result: whatever no call to it may change.
pub ghost struct Place { x: int }
pub uninterp spec fn place_of<T>(v: T) -> Place;

/// One call made to a handler.
pub ghost enum Call {
    Attr { ns: Seq<char>, local: Seq<char>, value: Seq<char> },
    /// a child element; `at` is the reader's index just behind its start tag
    Elem { src: Src, at: int },
    Chars { s: Seq<char>, pos: TextPosition },
}

/// What the handler made of it: it failed, consumed it, or passed it on (text: as this value).
pub ghost enum Answer {
    Failed(VisitorError),
    Consumed,
    Passed(Seq<char>),
}
pub ghost struct Entry {
    pub call: Call,
    pub answer: Answer,
}
pub open spec fn answer_text(r: Result<Option<String>, VisitorError>) -> Answer {
    match r {
        Ok(Some(s)) => Answer::Passed(s@),
        Ok(None) => Answer::Consumed,
        Err(e) => Answer::Failed(e),
    }
}
pub open spec fn answer_chars(r: Result<Option<String>, crate::BoxedStdError>) -> Answer {
    match r {
        Ok(Some(s)) => Answer::Passed(s@),
        Ok(None) => Answer::Consumed,
        Err(e) => Answer::Failed(VisitorError::Wrap(e)),
    }
}
pub open spec fn answer_element(r: Result<Option<ElementReader<'_>>, VisitorError>) -> Answer {
    match r {
        Ok(Some(_)) => Answer::Passed(Seq::empty()),
        Ok(None) => Answer::Consumed,
        Err(e) => Answer::Failed(e),
    }
}
/// `b` is `a` and then exactly the calls `calls`, none of which failed.
pub open spec fn extended(a: Seq<Entry>, b: Seq<Entry>, calls: Seq<Call>) -> bool {
    &&& b.len() == a.len() + calls.len()
    &&& b.take(a.len() as int) == a
    &&& forall|i: int| 0 <= i < calls.len() ==> (#[trigger] b[a.len() + i]).call == calls[i] && !(b[a.len() + i].answer is Failed)
}

/// The expanded name of a name in a document: (namespace, local name).
pub open spec fn expanded(local: Seq<char>, ns: Option<Seq<char>>, prefix: Option<Seq<char>>) -> (Seq<char>, Seq<char>) {
    (
        match ns {
            Some(n) => n,
            None => if prefix == Some("xml"@) { "http://www.w3.org/XML/1998/namespace"@ } else { ""@ },
        },
        local,
    )
}
pub open spec fn expanded_owned(n: xml::name::OwnedName) -> (Seq<char>, Seq<char>) {
    expanded(n.local_name@, xml::name::opt_string(n.namespace), xml::name::opt_string(n.prefix))
}
pub open spec fn expanded_of(n: xml::name::Name) -> (Seq<char>, Seq<char>) {
    expanded(n.local_name@, xml::name::opt_str(n.namespace), xml::name::opt_str(n.prefix))
}

pub open spec fn attr_call(a: xml::attribute::OwnedAttribute) -> Call {
    let (ns, local) = expanded_owned(a.name);
    Call::Attr { ns, local, value: a.value@ }
}
/// The calls for the first `n` attributes of a start tag, in order.
pub open spec fn attr_calls(attrs: Seq<xml::attribute::OwnedAttribute>, n: int) -> Seq<Call>
    decreases n
{
    if n <= 0 { Seq::empty() } else { attr_calls(attrs, n - 1).push(attr_call(attrs[n - 1])) }
}

/// The call for event `k` if it is a child element or text of the element at depth `d`.
pub open spec fn content_call(src: Src, d: int, k: int) -> Option<Call> {
    if !(0 <= k < src.evs.len()) || src.depth(k) != d { None }
    else if is_start(src.evs[k]) { Some(Call::Elem { src, at: k + 1 }) }
    else if is_text(src.evs[k]) { Some(Call::Chars { s: text_of(src.evs[k])@, pos: src.pos_at(k + 1) }) }
    else { None }
}
/// The calls for the content between events `i` and `k`, in document order.
pub open spec fn content(src: Src, d: int, i: int, k: int) -> Seq<Call>
    decreases k - i
{
    if k <= i { Seq::empty() }
    else {
        match content_call(src, d, k - 1) {
            Some(c) => content(src, d, i, k - 1).push(c),
            None => content(src, d, i, k - 1),
        }
    }
}

/// All character data between events `i` and `k`.
pub open spec fn text(src: Src, i: int, k: int) -> Seq<char>
    decreases k - i
{
    if k <= i { Seq::empty() }
    else if k <= src.evs.len() && is_text(src.evs[k - 1]) { text(src, i, k - 1) + text_of(src.evs[k - 1])@ }
    else { text(src, i, k - 1) }
}

/// No element starts or ends between events `i` and `k`.
pub open spec fn flat(src: Src, i: int, k: int) -> bool {
    forall|m: int| i <= m < k && m < src.evs.len() ==> !is_start(#[trigger] src.evs[m]) && !is_end(src.evs[m])
}

/// The state of an element's reader.
pub open spec fn at(r: ElementReader<'_>) -> RS { r.reader.st() }

/// The element reader is fresh: nothing of the element but its start tag was read.
pub open spec fn fresh(r: ElementReader<'_>) -> bool {
    let s = r.reader.st();
    &&& rinv(s) && trimmed(s)
    &&& s.dep == r.stack_pos + 1
    &&& 1 <= s.idx <= s.src.evs.len()
    &&& is_start(s.src.evs[s.idx - 1])
    &&& s.src.evs[s.idx - 1]->StartElement_attributes == r.attributes
    &&& s.src.evs[s.idx - 1]->StartElement_namespace == r.namespace
}

/// The document is complete: it ends without error and consists of exactly one
/// root element, from event `s` to event `e`, with only comments and processing
/// instructions around it (after the document's start).
pub open spec fn complete(src: Src, s: int, e: int) -> bool {
    &&& src.end is Ok
    &&& 0 < s < e < src.evs.len()
    &&& src.evs[0] is StartDocument
    &&& forall|k: int| 0 < k < s ==> is_misc(#[trigger] src.evs[k])
    &&& is_start(src.evs[s])
    &&& is_end(src.evs[e])
    &&& src.depth(e + 1) == 0
    &&& forall|k: int| s < k <= e ==> #[trigger] src.depth(k) > 0
    &&& forall|k: int| e < k < src.evs.len() ==> is_misc(#[trigger] src.evs[k])
}

/// Order of strings: by code points (the byte order of their UTF-8 forms).
pub open spec fn str_lt(a: Seq<char>, b: Seq<char>) -> bool
    decreases a.len()
{
    if b.len() == 0 { false }
    else if a.len() == 0 { true }
    else if a[0] != b[0] { (a[0] as u32) < (b[0] as u32) }
    else { str_lt(a.skip(1), b.skip(1)) }
}
pub open spec fn name_of(n: ExpandedNameRef<'_>) -> (Seq<char>, Seq<char>) { (n.namespace@, n.local_name@) }
/// The derived order of `ExpandedNameRef`: namespace first, then local name.
pub open spec fn name_lt(a: (Seq<char>, Seq<char>), b: (Seq<char>, Seq<char>)) -> bool {
    str_lt(a.0, b.0) || a.0 == b.0 && str_lt(a.1, b.1)
}
#[verifier::opaque]
pub open spec fn names_sorted(s: Seq<ExpandedNameRef<'_>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> name_lt(name_of(#[trigger] s[i]), name_of(#[trigger] s[j]))
}
