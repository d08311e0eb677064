// Assumed contracts on std (trusted). Everything `external_body` or
// `assume_specification` here is listed in each evidence file.

pub assume_specification [std::string::String::into_bytes] (s: String) -> (r: Vec<u8>)
    ensures r@ == encode_utf8(s@);

/// Safety precondition of the real function: the bytes are valid UTF-8.
pub assume_specification [std::string::String::from_utf8_unchecked] (v: Vec<u8>) -> (r: String)
    requires valid_utf8(v@)
    ensures encode_utf8(r@) == v@;

/// Contracts of closures that only build a value of their parameters.
pub open spec fn vx_same<T>(a: T, b: T) -> bool { a == b }
pub open spec fn vx_vec1<T>(a: Vec<T>, b: T) -> bool { a@ =~= seq![b] }

/// Unknown truth values, for the canary run only.
pub uninterp spec fn vx_any(k: int) -> bool;

/// `panic!`, `todo!`, `unreachable!`: must be unreachable.
#[verifier::external_body]
pub fn vx_panic<T>() -> (r: T)
    requires false
{ unimplemented!() }

/// `assert!`, `debug_assert!`: the condition must be proved.
pub fn vx_assert(b: bool)
    requires b
{ }

pub assume_specification<Idx: Clone> [<std::ops::Range<Idx> as Clone>::clone] (r: &std::ops::Range<Idx>) -> (c: std::ops::Range<Idx>)
    ensures cloned(r.start, c.start), cloned(r.end, c.end);

/// slice::iter() and the adaptors the code uses.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxIter<'a, T> { s: &'a [T] }

#[verifier::external_body]
pub fn vx_iter<'a, T>(v: &'a Vec<T>) -> (r: VxIter<'a, T>)
    ensures r.rest() == v@
{ unimplemented!() }

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(F)]
pub struct VxTakeWhile<'a, T, F> { s: &'a [T], f: F }

impl<'a, T> VxIter<'a, T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;

    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: VxIter<'a, T>)
        ensures r.rest() == (if n <= self.rest().len() { self.rest().take(n as int) } else { self.rest() })
    { unimplemented!() }

    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: VxIter<'a, T>)
        ensures r.rest() == (if n <= self.rest().len() { self.rest().skip(n as int) } else { Seq::empty() })
    { unimplemented!() }

    #[verifier::external_body]
    pub fn take_while<F: Fn(&&T) -> bool>(self, f: F) -> (r: VxTakeWhile<'a, T, F>)
        requires forall|i: int| 0 <= i < self.rest().len() ==> call_requires(f, (&&#[trigger] self.rest()[i],)),
        ensures r.rest() == self.rest(), r.f() == f
    { unimplemented!() }
}

impl<'a, T, F: Fn(&&T) -> bool> VxTakeWhile<'a, T, F> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    pub uninterp spec fn f(&self) -> F;

    #[verifier::external_body]
    pub fn count(self) -> (r: usize)
        ensures
            r <= self.rest().len(),
            forall|i: int| 0 <= i < r ==> call_ensures(self.f(), (&&#[trigger] self.rest()[i],), true),
            r < self.rest().len() ==> call_ensures(self.f(), (&&self.rest()[r as int],), false),
    { unimplemented!() }
}

/// Vec::copy_within(src, dest)
#[verifier::external_body]
pub fn vx_copy_within(v: &mut Vec<u8>, src: std::ops::Range<usize>, dest: usize)
    requires
        src.start <= src.end <= old(v)@.len(),
        dest + (src.end - src.start) <= old(v)@.len(),
    ensures
        final(v)@.len() == old(v)@.len(),
        forall|i: int| 0 <= i < final(v)@.len() ==> #[trigger] final(v)@[i] == (
            if dest <= i < dest + (src.end - src.start) { old(v)@[src.start + (i - dest)] } else { old(v)@[i] }),
{ unimplemented!() }
