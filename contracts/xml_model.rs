// The xml-rs types the code uses, with assumed contracts (trusted) for the reader.
// Field names, variants and signatures are those of xml-rs 0.8.4.

#[verifier::external_trait_specification]
pub trait ExRead { type ExternalTraitSpecificationFor: std::io::Read; }

/// xml::common::TextPosition
#[derive(Copy, Clone)]
pub struct TextPosition { pub row: u64, pub column: u64 }

pub mod xml {
    #[allow(unused_imports)]
    use super::*;

    pub mod name {
        #[allow(unused_imports)]
        use super::super::*;

        pub struct OwnedName {
            pub local_name: String,
            pub namespace: Option<String>,
            pub prefix: Option<String>,
        }

        #[derive(Copy, Clone)]
        pub struct Name<'a> {
            pub local_name: &'a str,
            pub namespace: Option<&'a str>,
            pub prefix: Option<&'a str>,
        }

        pub open spec fn opt_str(o: Option<&str>) -> Option<Seq<char>> {
            match o { Some(s) => Some(s@), None => None }
        }

        pub open spec fn opt_string(o: Option<String>) -> Option<Seq<char>> {
            match o { Some(s) => Some(s@), None => None }
        }

        impl OwnedName {
            #[verifier::external_body]
            pub fn borrow(&self) -> (r: Name<'_>)
                ensures
                    r.local_name@ == self.local_name@,
                    opt_str(r.namespace) == opt_string(self.namespace),
                    opt_str(r.prefix) == opt_string(self.prefix),
            { unimplemented!() }
        }
        /// `prefix:local`, as it is printed.
        #[verifier::external_body]
        pub struct ReprDisplay<'a, 'b> { x: std::marker::PhantomData<(&'a (), &'b ())> }
        impl<'a, 'b> ReprDisplay<'a, 'b> {
            pub uninterp spec fn of(&self) -> (Seq<char>, Option<Seq<char>>);
        }
        impl<'a> Name<'a> {
            #[verifier::external_body]
            pub fn repr_display<'b>(&'b self) -> (r: ReprDisplay<'a, 'b>)
                ensures r.of() == (self.local_name@, opt_str(self.prefix))
            { unimplemented!() }
        }
    }

    pub mod attribute {
        pub struct OwnedAttribute {
            pub name: super::name::OwnedName,
            pub value: String,
        }
    }

    pub mod namespace {
        /// Opaque here: the code only passes it on.
        #[verifier::external_body]
        pub struct Namespace { x: () }
    }

    pub mod common {
        #[verifier::external_body]
        pub struct XmlVersion { x: () }
    }

    pub mod reader {
        #[allow(unused_imports)]
        use super::super::*;

        #[allow(inconsistent_fields)]
        pub enum XmlEvent {
            StartDocument { version: super::common::XmlVersion, encoding: String, standalone: Option<bool> },
            EndDocument,
            ProcessingInstruction { name: String, data: Option<String> },
            StartElement {
                name: super::name::OwnedName,
                attributes: Vec<super::attribute::OwnedAttribute>,
                namespace: super::namespace::Namespace,
            },
            EndElement { name: super::name::OwnedName },
            CData(String),
            Comment(String),
            Characters(String),
            Whitespace(String),
        }

        #[verifier::external_body]
        pub struct IoError { x: () }
        #[verifier::external_body]
        pub struct Utf8Error { x: () }
        pub enum ErrorKind { Syntax(String), Io(IoError), Utf8(Utf8Error), UnexpectedEof }
        /// xml::reader::Error
        #[verifier::external_body]
        pub struct Error { x: () }

        impl Error {
            pub uninterp spec fn pos(&self) -> TextPosition;
            pub uninterp spec fn what(&self) -> ErrorKind;
            #[verifier::external_body]
            pub fn kind(&self) -> (r: &ErrorKind)
                ensures *r == self.what()
            { unimplemented!() }
            pub uninterp spec fn message(&self) -> Seq<char>;
            #[verifier::external_body]
            pub fn msg(&self) -> (r: &str)
                ensures r@ == self.message()
            { unimplemented!() }

            #[verifier::external_body]
            pub fn position(&self) -> (r: TextPosition)
                ensures r == self.pos()
            { unimplemented!() }
        }

        #[verifier::external_body]
        #[verifier::reject_recursive_types(R)]
        pub struct EventReader<R> { x: std::marker::PhantomData<R> }

        impl<R: std::io::Read> EventReader<R> {
            /// The whole event sequence this reader will deliver, fixed by its input.
            pub uninterp spec fn src(&self) -> Src;
            /// Number of events delivered so far (one past the end once the end was delivered).
            pub uninterp spec fn idx(&self) -> int;

            #[verifier::external_body]
            pub fn new(source: R) -> (r: Self)
                ensures r.src() == src_of(source), r.src().wf(), r.idx() == 0
            { unimplemented!() }

            #[verifier::external_body]
            pub fn next(&mut self) -> (r: Result<XmlEvent, Error>)
                requires
                    old(self).idx() >= 0,
                ensures
                    final(self).src() == old(self).src(),
                    ({
                        let s = old(self).src();
                        let i = old(self).idx();
                        if i < s.evs.len() {
                            final(self).idx() == i + 1 && r == Ok::<XmlEvent, Error>(s.evs[i])
                        } else {
                            final(self).idx() == s.evs.len() + 1 && match s.end {
                                Ok(_) => r == Ok::<XmlEvent, Error>(XmlEvent::EndDocument),
                                Err(e) => r == Err::<XmlEvent, Error>(e),
                            }
                        }
                    }),
            { unimplemented!() }

            #[verifier::external_body]
            pub fn position(&self) -> (r: TextPosition)
                ensures r == self.src().pos_at(self.idx())
            { unimplemented!() }
        }
    }
}

use xml::reader::XmlEvent;

// ------------------------------------------------------------- event sources

/// What an XML source delivers: its events, then its end (for ever after).
#[verifier::reject_recursive_types_in_ground_variants]
pub ghost struct Src {
    pub evs: Seq<XmlEvent>,
    pub end: Result<(), xml::reader::Error>,
    pub pos: spec_fn(int) -> TextPosition,
}

pub uninterp spec fn src_of<R>(source: R) -> Src;

pub open spec fn is_start(e: XmlEvent) -> bool { e is StartElement }
pub open spec fn is_end(e: XmlEvent) -> bool { e is EndElement }
/// Character data: plain text, white space and CDATA sections.
pub open spec fn is_text(e: XmlEvent) -> bool { e is Characters || e is CData || e is Whitespace }
pub open spec fn text_of(e: XmlEvent) -> String {
    match e {
        XmlEvent::Characters(s) => s,
        XmlEvent::CData(s) => s,
        XmlEvent::Whitespace(s) => s,
        _ => arbitrary(),
    }
}
/// Everything except comments, processing instructions and the document's own start and end.
pub open spec fn is_sig(e: XmlEvent) -> bool { is_start(e) || is_end(e) || is_text(e) }
pub open spec fn is_misc(e: XmlEvent) -> bool { e is Comment || e is ProcessingInstruction }

impl Src {
    /// Position reported after `i` events were delivered.
    pub open spec fn pos_at(self, i: int) -> TextPosition { (self.pos)(i) }

    /// The elements open after the first `i` events.
    pub open spec fn open(self, i: int) -> Seq<StackElement>
        decreases i
    {
        if i <= 0 { Seq::empty() }
        else if i > self.evs.len() { self.open(i - 1) }
        else {
            match self.evs[i - 1] {
                XmlEvent::StartElement { name, .. } => self.open(i - 1).push(StackElement { name, pos: self.pos_at(i) }),
                XmlEvent::EndElement { .. } => self.open(i - 1).drop_last(),
                _ => self.open(i - 1),
            }
        }
    }

    pub open spec fn depth(self, i: int) -> int { self.open(i).len() as int }

    /// What xml-rs guarantees about every source (trusted).
    #[verifier::opaque]
    pub open spec fn wf(self) -> bool {
        // `EndDocument` is only ever the end
        &&& forall|i: int| 0 <= i < self.evs.len() ==> !(#[trigger] self.evs[i] is EndDocument)
        // `StartDocument` comes first if at all
        &&& forall|i: int| 0 < i < self.evs.len() ==> !(#[trigger] self.evs[i] is StartDocument)
        // end tags match the innermost open element
        &&& forall|i: int| 0 <= i < self.evs.len() && is_end(#[trigger] self.evs[i]) ==>
                self.depth(i) > 0 && self.open(i).last().name == self.evs[i]->EndElement_name
        // open elements fit into memory
        &&& forall|i: int| #[trigger] self.depth(i) < usize::MAX
        // a document that ends without error has a root element, and closed it
        &&& self.end is Ok ==> self.depth(self.evs.len() as int) == 0
        &&& self.end is Ok ==> exists|i: int| 0 <= i < self.evs.len() && is_start(#[trigger] self.evs[i])
    }

    /// Some element or text event is still to come, or an error.
    pub open spec fn has_more(self, i: int) -> bool {
        self.end is Err || exists|j: int| i <= j < self.evs.len() && is_sig(#[trigger] self.evs[j])
    }

    /// `j` is the first significant event at or after `i`.
    pub open spec fn first_sig(self, i: int, j: int) -> bool {
        &&& i <= j < self.evs.len()
        &&& is_sig(self.evs[j])
        &&& forall|k: int| i <= k < j ==> !is_sig(#[trigger] self.evs[k])
    }

    /// `k` is where depth `d` is reached for the first time from `i` on.
    pub open spec fn returns(self, i: int, d: int, k: int) -> bool {
        &&& i <= k
        &&& self.depth(k) == d
        &&& forall|m: int| i <= m < k ==> #[trigger] self.depth(m) > d
    }
}
