// ------------------------------------------------------------------ the property
// XML Schema whiteSpace facet, over characters.

pub open spec fn is_ws_c(c: char) -> bool { c == '\u{9}' || c == '\u{A}' || c == '\u{D}' || c == '\u{20}' }
pub open spec fn is_ws_b(b: u8) -> bool { b == 9 || b == 10 || b == 13 || b == 32 }

/// `replace`: every white space character becomes one space; nothing else changes.
pub open spec fn replaced(s: Seq<char>) -> Seq<char> {
    Seq::new(s.len(), |i: int| if is_ws_c(s[i]) { ' ' } else { s[i] })
}

/// A character survives `collapse` iff it is not white space, or it is the first
/// of a run of white space that has something before it and something after it.
pub open spec fn keep_c(s: Seq<char>, i: int) -> bool {
    !is_ws_c(s[i]) || (i > 0 && !is_ws_c(s[i - 1]) && exists|j: int| i < j < s.len() && !is_ws_c(#[trigger] s[j]))
}

/// What `collapse` makes of the first `n` characters of `s`.
pub open spec fn coll_c(s: Seq<char>, n: int) -> Seq<char>
    decreases n
{
    if n <= 0 { Seq::empty() }
    else if !keep_c(s, n - 1) { coll_c(s, n - 1) }
    else { coll_c(s, n - 1).push(if is_ws_c(s[n - 1]) { ' ' } else { s[n - 1] }) }
}

pub open spec fn collapsed(s: Seq<char>) -> Seq<char> { coll_c(s, s.len() as int) }

pub open spec fn normalized(s: Seq<char>, w: WhiteSpace) -> Seq<char> {
    match w {
        WhiteSpace::Preserve => s,
        WhiteSpace::Replace => replaced(s),
        WhiteSpace::Collapse => collapsed(s),
    }
}

// ------------------------------------------------------------------ normalizing twice
proof fn lemma_coll(s: Seq<char>, n: int)
    requires 0 <= n <= s.len()
    ensures ({
        let r = coll_c(s, n);
        &&& forall|i: int| 0 <= i < r.len() && is_ws_c(#[trigger] r[i]) ==> r[i] == ' ' && i > 0 && !is_ws_c(r[i - 1])
        &&& r.len() > 0 && is_ws_c(r.last()) ==> exists|j: int| n <= j < s.len() && !is_ws_c(#[trigger] s[j])
        &&& n > 0 && !is_ws_c(s[n - 1]) ==> r.len() > 0 && !is_ws_c(r.last())
    })
    decreases n
{
    if n > 0 {
        lemma_coll(s, n - 1);
        if keep_c(s, n - 1) && is_ws_c(s[n - 1]) {
            let j = choose|j: int| n - 1 < j < s.len() && !is_ws_c(#[trigger] s[j]);
            assert(n <= j);
        }
    }
}
proof fn lemma_coll_same(s: Seq<char>, n: int)
    requires
        0 <= n <= s.len(),
        forall|i: int| 0 <= i < s.len() && is_ws_c(#[trigger] s[i]) ==> s[i] == ' ' && i > 0 && !is_ws_c(s[i - 1]),
        s.len() > 0 ==> !is_ws_c(s.last()),
    ensures coll_c(s, n) == s.take(n)
    decreases n
{
    if n > 0 {
        lemma_coll_same(s, n - 1);
        if is_ws_c(s[n - 1]) { assert(!is_ws_c(s[s.len() - 1])); assert(keep_c(s, n - 1)); }
        assert(s.take(n) =~= s.take(n - 1).push(s[n - 1]));
    } else {
        assert(s.take(0) =~= Seq::<char>::empty());
    }
}
/// Normalized text is its own normal form.
proof fn lemma_normalized_twice(s: Seq<char>, w: WhiteSpace)
    ensures normalized(normalized(s, w), w) == normalized(s, w)
{
    match w {
        WhiteSpace::Preserve => { }
        WhiteSpace::Replace => { assert(replaced(replaced(s)) =~= replaced(s)); }
        WhiteSpace::Collapse => {
            let t = collapsed(s);
            lemma_coll(s, s.len() as int);
            lemma_coll_same(t, t.len() as int);
            assert(t.take(t.len() as int) =~= t);
        }
    }
}
