use vstd::prelude::*;
use vstd::utf8::*;

verus! {

//@include std_prelude.rs
//@source de static-xml/src/de/mod.rs
//@method iter vx_iter ref
//@method copy_within vx_copy_within mut args

//@include normal_model.rs

// ------------------------------------------------------- the same over bytes
pub open spec fn map_b(b: u8) -> u8 { if is_ws_b(b) { 32u8 } else { b } }
pub open spec fn replaced_b(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| map_b(s[i])) }
pub open spec fn later_b(s: Seq<u8>, i: int) -> bool { exists|j: int| i < j < s.len() && !is_ws_b(#[trigger] s[j]) }
pub open spec fn later_c(s: Seq<char>, i: int) -> bool { exists|j: int| i < j < s.len() && !is_ws_c(#[trigger] s[j]) }
pub open spec fn keep_b(s: Seq<u8>, i: int) -> bool {
    !is_ws_b(s[i]) || (i > 0 && !is_ws_b(s[i - 1]) && later_b(s, i))
}
pub open spec fn coll_b(s: Seq<u8>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { Seq::empty() }
    else if !keep_b(s, n - 1) { coll_b(s, n - 1) }
    else { coll_b(s, n - 1).push(map_b(s[n - 1])) }
}

// -------------------------------------------------------------------- lemmas
/// The bytes of one character: itself if ASCII, otherwise all non-ASCII.
proof fn lemma_scalar(c: char)
    ensures
        encode_scalar(c as u32).len() >= 1,
        encode_utf8(seq![c]) == encode_scalar(c as u32),
        (c as u32) < 0x80 ==> encode_scalar(c as u32) == seq![c as u8],
        (c as u32) >= 0x80 ==> forall|i: int| 0 <= i < encode_scalar(c as u32).len() ==> #[trigger] encode_scalar(c as u32)[i] >= 0x80,
{
    encode_utf8_push(Seq::<char>::empty(), c);
    assert(Seq::<char>::empty().push(c) =~= seq![c]);
    assert(encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty());
    assert(Seq::<u8>::empty() + encode_scalar(c as u32) =~= encode_scalar(c as u32));
    let x = c as u32;
    assert(forall|x: u32| x < 0x80 ==> #[trigger] (x & 0x7F) == x) by (bit_vector);
    assert(forall|y: u8| #[trigger] (0x80u8 | y) >= 0x80) by (bit_vector);
    assert(forall|y: u8| #[trigger] (0xC0u8 | y) >= 0x80) by (bit_vector);
    assert(forall|y: u8| #[trigger] (0xE0u8 | y) >= 0x80) by (bit_vector);
    assert(forall|y: u8| #[trigger] (0xF0u8 | y) >= 0x80) by (bit_vector);
    if x < 0x80 {
        assert(has_width_1_encoding(x));
        assert(leading_byte_width_1(x) == x as u8);
        assert(encode_scalar(x) =~= seq![c as u8]);
    } else {
        assert(forall|i: int| 0 <= i < encode_scalar(x).len() ==> #[trigger] encode_scalar(x)[i] >= 0x80);
    }
}

proof fn lemma_split(s: Seq<char>, n: int)
    requires 0 <= n <= s.len()
    ensures encode_utf8(s) == encode_utf8(s.take(n)) + encode_utf8(s.skip(n))
{
    encode_utf8_concat(s.take(n), s.skip(n));
    assert(s.take(n) + s.skip(n) =~= s);
}

proof fn lemma_next(s: Seq<char>, n: int)
    requires 0 <= n < s.len()
    ensures ({
        let m = encode_utf8(s.take(n)).len() as int;
        let e = encode_scalar(s[n] as u32);
        &&& encode_utf8(s.take(n + 1)) == encode_utf8(s.take(n)) + e
        &&& m + e.len() <= encode_utf8(s).len()
        &&& forall|k: int| 0 <= k < e.len() ==> #[trigger] encode_utf8(s)[m + k] == e[k]
        &&& encode_utf8(s).take(m) == encode_utf8(s.take(n))
        &&& e.len() >= 1
    })
{
    let m = encode_utf8(s.take(n)).len() as int;
    let e = encode_scalar(s[n] as u32);
    encode_utf8_push(s.take(n), s[n]);
    assert(s.take(n).push(s[n]) =~= s.take(n + 1));
    lemma_split(s, n + 1);
    lemma_split(s, n);
    lemma_scalar(s[n]);
    assert(encode_utf8(s).take(m) =~= encode_utf8(s.take(n)));
    assert forall|k: int| 0 <= k < e.len() implies #[trigger] encode_utf8(s)[m + k] == e[k] by {
        assert(encode_utf8(s)[m + k] == (encode_utf8(s.take(n)) + e)[m + k]);
    }
}

proof fn lemma_replace(s: Seq<char>, n: int)
    requires 0 <= n <= s.len()
    ensures encode_utf8(replaced(s.take(n))) == replaced_b(encode_utf8(s.take(n)))
    decreases n
{
    if n == 0 {
        assert(s.take(0) =~= Seq::<char>::empty());
        assert(replaced(s.take(0)) =~= Seq::<char>::empty());
        assert(encode_utf8(replaced(s.take(0))) =~= replaced_b(encode_utf8(s.take(0))));
    } else {
        lemma_replace(s, n - 1);
        lemma_next(s, n - 1);
        let c = s[n - 1];
        let d = if is_ws_c(c) { ' ' } else { c };
        lemma_scalar(c);
        lemma_scalar(d);
        assert(replaced(s.take(n)) =~= replaced(s.take(n - 1)).push(d));
        encode_utf8_push(replaced(s.take(n - 1)), d);
        assert(encode_scalar(d as u32) =~= replaced_b(encode_scalar(c as u32)));
        assert(replaced_b(encode_utf8(s.take(n - 1)) + encode_scalar(c as u32))
            =~= replaced_b(encode_utf8(s.take(n - 1))) + replaced_b(encode_scalar(c as u32)));
    }
}

/// Something other than white space follows: same for characters and bytes.
proof fn lemma_later(s: Seq<char>, n: int)
    requires 0 <= n < s.len()
    ensures ({
        let e = encode_utf8(s.take(n + 1)).len() - 1;
        later_b(encode_utf8(s), e) <==> later_c(s, n)
    })
    decreases s.len() - n
{
    let b = encode_utf8(s);
    let e = encode_utf8(s.take(n + 1)).len() - 1;
    if n + 1 == s.len() {
        assert(s.take(n + 1) =~= s);
        assert(!later_b(b, e));
        assert(!later_c(s, n));
    } else {
        lemma_later(s, n + 1);
        lemma_next(s, n + 1);
        lemma_scalar(s[n + 1]);
        let x = encode_scalar(s[n + 1] as u32);
        let m = e + 1;
        let e2 = encode_utf8(s.take(n + 2)).len() - 1;
        assert(e2 == e + x.len());
        assert(b[m + 0] == x[0]);
        if !is_ws_c(s[n + 1]) {
            assert(!is_ws_b(b[m]));
            assert(later_b(b, e));
            assert(later_c(s, n));
        } else {
            assert(x.len() == 1);
            assert(is_ws_b(b[m]));
            if later_b(b, e) {
                let j = choose|j: int| e < j < b.len() && !is_ws_b(#[trigger] b[j]);
                assert(e2 < j);
                assert(later_b(b, e2));
                let k = choose|k: int| n + 1 < k < s.len() && !is_ws_c(#[trigger] s[k]);
                assert(n < k < s.len() && !is_ws_c(s[k]));
            }
            if later_c(s, n) {
                let k = choose|k: int| n < k < s.len() && !is_ws_c(#[trigger] s[k]);
                assert(n + 1 < k);
                assert(later_c(s, n + 1));
                let j = choose|j: int| e2 < j < b.len() && !is_ws_b(#[trigger] b[j]);
                assert(e < j && !is_ws_b(b[j]));
            }
        }
    }
}

/// `p` bytes starting at `m`, all non white space, are kept unchanged.
proof fn lemma_coll_run(b: Seq<u8>, m: int, p: int)
    requires 0 <= m, 0 <= p, m + p <= b.len(), forall|k: int| m <= k < m + p ==> !is_ws_b(#[trigger] b[k])
    ensures coll_b(b, m + p) == coll_b(b, m) + b.subrange(m, m + p)
    decreases p
{
    if p == 0 {
        assert(b.subrange(m, m) =~= Seq::<u8>::empty());
        assert(coll_b(b, m) + b.subrange(m, m) =~= coll_b(b, m));
    } else {
        lemma_coll_run(b, m, p - 1);
        assert(!is_ws_b(b[m + p - 1]));
        assert(b.subrange(m, m + p) =~= b.subrange(m, m + p - 1).push(b[m + p - 1]));
        assert(coll_b(b, m + p) =~= coll_b(b, m + p - 1).push(b[m + p - 1]));
        assert(coll_b(b, m) + b.subrange(m, m + p) =~= (coll_b(b, m) + b.subrange(m, m + p - 1)).push(b[m + p - 1]));
    }
}

/// `p` white space bytes after one, or at the start, are dropped.
proof fn lemma_coll_drop(b: Seq<u8>, m: int, p: int)
    requires
        0 <= m, 0 <= p, m + p <= b.len(),
        forall|k: int| m <= k < m + p ==> is_ws_b(#[trigger] b[k]),
        m == 0 || is_ws_b(b[m - 1]) || !later_b(b, m),
    ensures coll_b(b, m + p) == coll_b(b, m)
    decreases p
{
    if p > 0 {
        lemma_coll_drop(b, m, p - 1);
        let i = m + p - 1;
        assert(is_ws_b(b[i]));
        if i > m { assert(is_ws_b(b[i - 1])); }
        assert(!keep_b(b, i));
    }
}

proof fn lemma_collapse(s: Seq<char>, n: int)
    requires 0 <= n <= s.len()
    ensures encode_utf8(coll_c(s, n)) == coll_b(encode_utf8(s), encode_utf8(s.take(n)).len() as int)
    decreases n
{
    let b = encode_utf8(s);
    if n == 0 {
        assert(s.take(0) =~= Seq::<char>::empty());
        assert(encode_utf8(coll_c(s, 0)) =~= coll_b(b, 0));
    } else {
        lemma_collapse(s, n - 1);
        lemma_next(s, n - 1);
        let c = s[n - 1];
        lemma_scalar(c);
        lemma_scalar(' ');
        let x = encode_scalar(c as u32);
        let m = encode_utf8(s.take(n - 1)).len() as int;
        let m2 = m + x.len();
        assert forall|k: int| m <= k < m2 implies b[k] == x[k - m] by {
            assert(b[m + (k - m)] == x[k - m]);
        }
        if !is_ws_c(c) {
            assert forall|k: int| m <= k < m2 implies !is_ws_b(#[trigger] b[k]) by { }
            lemma_coll_run(b, m, x.len() as int);
            assert(b.subrange(m, m2) =~= x);
            encode_utf8_push(coll_c(s, n - 1), c);
            assert(keep_c(s, n - 1));
        } else {
            assert(x.len() == 1);
            assert(b[m] == x[0]);
            assert(is_ws_b(b[m]));
            lemma_later(s, n - 1);
            if n - 1 > 0 {
                lemma_next(s, n - 2);
                lemma_scalar(s[n - 2]);
                let y = encode_scalar(s[n - 2] as u32);
                let q = encode_utf8(s.take(n - 2)).len() as int;
                assert(q + y.len() == m);
                assert(b[q + (y.len() - 1)] == y[y.len() - 1]);
                assert(is_ws_b(b[m - 1]) <==> is_ws_c(s[n - 2]));
            } else {
                assert(s.take(0) =~= Seq::<char>::empty());
                assert(m == 0);
            }
            assert(later_c(s, n - 1) <==> (exists|j: int| n - 1 < j < s.len() && !is_ws_c(#[trigger] s[j])));
            assert(keep_b(b, m) <==> keep_c(s, n - 1));
            if keep_c(s, n - 1) {
                encode_utf8_push(coll_c(s, n - 1), ' ');
                assert(coll_b(b, m + 1) =~= coll_b(b, m).push(32u8));
                assert(encode_utf8(coll_c(s, n)) =~= encode_utf8(coll_c(s, n - 1)).push(32u8));
            }
        }
    }
}

/// Byte strings that encode the same characters come from the same characters.
proof fn lemma_inj(a: Seq<char>, b: Seq<char>)
    requires encode_utf8(a) == encode_utf8(b)
    ensures a == b
{
    encode_utf8_decode_utf8(a);
    encode_utf8_decode_utf8(b);
}

/// The body's last step: from bytes back to the normalized characters.
proof fn lemma_result(s: Seq<char>, w: WhiteSpace, out: Seq<u8>)
    requires
        w == WhiteSpace::Replace ==> out == replaced_b(encode_utf8(s)),
        w == WhiteSpace::Collapse ==> out == coll_b(encode_utf8(s), encode_utf8(s).len() as int),
        w != WhiteSpace::Preserve,
    ensures
        valid_utf8(out),
        forall|t: Seq<char>| #[trigger] encode_utf8(t) == out ==> t == normalized(s, w),
{
    assert(s.take(s.len() as int) =~= s);
    lemma_replace(s, s.len() as int);
    lemma_collapse(s, s.len() as int);
    assert(encode_utf8(normalized(s, w)) == out);
    encode_utf8_valid_utf8(normalized(s, w));
    assert forall|t: Seq<char>| #[trigger] encode_utf8(t) == out implies t == normalized(s, w) by {
        lemma_inj(t, normalized(s, w));
    }
}

// ------------------------------------------------------------------ the code
//@item de enum WhiteSpace derive=Copy+Clone+PartialEq+Eq+Structural needs=PartialEq

//@fn de normalize props=C01
//@locals s whitespace is_whitespace b collapse v outp end copy start b p next_start
    ensures r@ == normalized(s@, whitespace), //#C01 result
//@closure 0
    -> (x: bool) ensures x == is_ws_b($0)
//@closure 1
    -> (x: bool) ensures x == is_ws_b($0)
//@at after let v
    let ghost b0 = v@;
//@loop 0 kind=while
    invariant
        forall|x: u8| #[trigger] call_requires(is_whitespace, (x,)),
        forall|x: u8, y: bool| #[trigger] call_ensures(is_whitespace, (x,), y) ==> y == is_ws_b(x),
        v@ == b0, 0 <= end <= b0.len(),
        forall|i: int| end <= i < b0.len() ==> is_ws_b(#[trigger] b0[i]),
    ensures
        end == 0 || !is_ws_b(b0[end - 1]),
    decreases end,
//@at after let start
    proof {
        assert forall|k: int| 0 <= k < start implies is_ws_b(#[trigger] b0[k]) by {
            assert(v@.take(end as int)[k] == b0[k]);
        }
        if start < end { assert(v@.take(end as int)[start as int] == b0[start as int]); }
    }
//@at after let copy
    proof {
        assert(v@ == b0);
        if collapse {
            lemma_coll_drop(b0, 0, copy.end as int);
            assert(v@.take(0) + v@.subrange(copy.end as int, copy.end as int) =~= coll_b(b0, 0));
        } else {
            assert(v@.take(0) =~= replaced_b(b0).take(0));
        }
    }
//@loop 1 kind=while
    invariant
        forall|x: u8| #[trigger] call_requires(is_whitespace, (x,)),
        forall|x: u8, y: bool| #[trigger] call_ensures(is_whitespace, (x,), y) ==> y == is_ws_b(x),
        collapse == (whitespace == WhiteSpace::Collapse),
        outp <= copy.start <= copy.end <= end <= v.len(), v.len() == b0.len(),
        !collapse ==> outp == 0 && copy.start == 0 && end == b0.len()
            && v@.take(copy.end as int) == replaced_b(b0).take(copy.end as int),
        collapse ==> (end == 0 || !is_ws_b(b0[end - 1])),
        collapse ==> (forall|i: int| end <= i < b0.len() ==> is_ws_b(#[trigger] b0[i])),
        collapse ==> v@.take(outp as int) + v@.subrange(copy.start as int, copy.end as int) == coll_b(b0, copy.end as int),
        collapse ==> (copy.end > 0 && !is_ws_b(b0[copy.end - 1]) || copy.end < end && !is_ws_b(b0[copy.end as int]) || copy.end == end),
        forall|i: int| copy.end <= i < b0.len() ==> #[trigger] v@[i] == b0[i],
    ensures
        copy.end == end,
    decreases end - copy.end,
//@at loop 1 start
    proof {
        let q = copy.end as int;
        assert(v@[q] == b0[q]);
        if collapse {
            if is_ws_b(b0[q]) {
                assert(q < end - 1 && !is_ws_b(b0[end - 1]));
                assert(later_b(b0, q));
            }
            assert(keep_b(b0, q));
            assert(coll_b(b0, q + 1) == coll_b(b0, q).push(map_b(b0[q])));
            let w = v@.update(q, map_b(b0[q]));
            assert(w.take(outp as int) =~= v@.take(outp as int));
            assert(w.subrange(copy.start as int, q + 1) =~= v@.subrange(copy.start as int, q).push(map_b(b0[q])));
            assert(w.take(outp as int) + w.subrange(copy.start as int, q + 1)
                =~= (v@.take(outp as int) + v@.subrange(copy.start as int, q)).push(map_b(b0[q])));
        } else {
            let w = v@.update(q, map_b(b0[q]));
            assert(w.take(q + 1) =~= v@.take(q).push(map_b(b0[q])));
            assert(replaced_b(b0).take(q + 1) =~= replaced_b(b0).take(q).push(map_b(b0[q])));
        }
        if !is_ws_b(b0[q]) { assert(v@.update(q, map_b(b0[q])) =~= v@); }
    }
//@at before call copy_within#0
    let ghost v1 = v@;
    proof {
        assert(next_start < end);
        lemma_coll_drop(b0, copy.end as int, next_start - copy.end);
    }
//@at after call copy_within#0
    proof {
        let n = copy.end - copy.start;
        assert(v@.take(outp + n) =~= v1.take(outp as int) + v1.subrange(copy.start as int, copy.end as int));
        assert(v@.take(outp + n) =~= coll_b(b0, next_start as int));
        assert(v@.take(outp + n) + v@.subrange(next_start as int, next_start as int) =~= v@.take(outp + n));
    }
//@at before call copy_within#1
    let ghost v2 = v@;
    let ghost end0 = end as int;
//@at after call copy_within#1
    proof {
        let n = copy.end - copy.start;
        assert(v@.take(outp + n) =~= v2.take(outp as int) + v2.subrange(copy.start as int, copy.end as int));
    }
//@at before call truncate#0
    proof {
        if collapse {
            lemma_coll_drop(b0, copy.end as int, b0.len() - copy.end);
            if copy.start == outp {
                assert(v@.take(end as int) =~= v@.take(outp as int) + v@.subrange(copy.start as int, copy.end as int));
            }
        } else {
            assert(replaced_b(b0).take(end as int) =~= replaced_b(b0));
        }
    }
//@at tail
    proof { lemma_result(s@, whitespace, v@); }
//@loop 2 kind=while
    invariant
        forall|x: u8| #[trigger] call_requires(is_whitespace, (x,)),
        forall|x: u8, y: bool| #[trigger] call_ensures(is_whitespace, (x,), y) ==> y == is_ws_b(x),
        copy.end <= next_start <= end <= v.len(), v.len() == b0.len(),
        forall|i: int| copy.end <= i < b0.len() ==> #[trigger] v@[i] == b0[i],
        forall|i: int| copy.end <= i < next_start ==> is_ws_b(#[trigger] b0[i]),
    ensures
        next_start == end || !is_ws_b(b0[next_start as int]),
    decreases end - next_start,
//@end

} // verus!

fn main() {}
