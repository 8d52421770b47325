// Stand-ins and specification vocabulary for src/server.
use vstd::prelude::*;
use vstd::string::*;
use crate::vspec::*;
use crate::vident::*;
use crate::vmsg::*;
verus! {
/// Box<dyn std::error::Error> (opaque; only carried around)
#[verifier::external_body] pub struct BoxedError { x: usize }
/// stands for e.into()
#[verifier::external_body] pub fn boxed<E>(e: E) -> BoxedError { unimplemented!() }

/// after a parse error: everything up to the next opening brace behind the first byte
pub open spec fn resync(b: Seq<u8>, k: int) -> bool {
    1 <= k <= b.len() && (forall|i: int| 1 <= i < k ==> b[i] != 123) && (k < b.len() ==> b[k] == 123)
}
/// stands for b.iter().skip(1).position(|&x| x == b'{')
#[verifier::external_body]
pub fn brace_pos(b: &[u8]) -> (r: Option<usize>)
    ensures match r {
        Some(k) => k + 1 < b@.len() && resync(b@, k + 1),
        None => b@.len() > 0 ==> resync(b@, b@.len() as int),
    },
{ b.iter().skip(1).position(|&x| x == 123) }

/// what an optional screen ID looks like in a message
pub open spec fn opt_field(a: Seq<u8>) -> Option<Seq<u8>> { if a.len() == 0 { None } else { Some(a) } }
pub open spec fn field_of(o: Option<Seq<u8>>) -> Seq<u8> { match o { Some(x) => x, None => Seq::empty() } }
/// what a `have` message says about a module
pub open spec fn have_text(module: Seq<u8>, v: Option<u16>) -> Seq<u8> {
    match v { Some(n) => module + seq![46u8] + dec(n as nat), None => module }
}

// ------------------------------------------------------------------ framing (C14)
/// the first opening brace behind the first byte, or the end
pub open spec fn next_brace(b: Seq<u8>, i: int) -> int
    decreases b.len() - i,
{
    if i >= b.len() { b.len() as int } else if b[i] == 123 { i } else { next_brace(b, i + 1) }
}
pub proof fn lemma_next_brace(b: Seq<u8>, i: int)
    requires 0 <= i <= b.len(),
    ensures i <= next_brace(b, i) <= b.len(), forall|j: int| i <= j < next_brace(b, i) ==> b[j] != 123,
        next_brace(b, i) < b.len() ==> b[next_brace(b, i)] == 123,
    decreases b.len() - i,
{ if i < b.len() && b[i] != 123 { lemma_next_brace(b, i + 1); } }
pub proof fn lemma_resync(b: Seq<u8>, k: int)
    requires b.len() > 0,
    ensures resync(b, k) <==> k == next_brace(b, 1),
{ lemma_next_brace(b, 1); }
pub proof fn lemma_parse_bounds(b: Seq<u8>)
    ensures sp_parse(b) matches Ok(n) ==> 0 < n <= b.len(), b.len() == 0 ==> (sp_parse(b) matches Err(e) && e.0 == PKind::Eof),
{ lemma_parse_sound(b); }
/// the messages in a sequence of bytes
pub open spec fn frames(b: Seq<u8>) -> Seq<Seq<Seq<u8>>>
    decreases b.len(),
{
    match sp_parse(b) {
        Ok(n) => if 0 < n <= b.len() { seq![sp_elems(b)] + frames(b.skip(n)) } else { Seq::empty() },
        Err(e) => if e.0 == PKind::Eof || b.len() == 0 || next_brace(b, 1) < 1 || next_brace(b, 1) > b.len() { Seq::empty() } else { frames(b.skip(next_brace(b, 1))) },
    }
}
/// what is left of it (the start of a message)
pub open spec fn rest(b: Seq<u8>) -> Seq<u8>
    decreases b.len(),
{
    match sp_parse(b) {
        Ok(n) => if 0 < n <= b.len() { rest(b.skip(n)) } else { b },
        Err(e) => if e.0 == PKind::Eof || b.len() == 0 || next_brace(b, 1) < 1 || next_brace(b, 1) > b.len() { b } else { rest(b.skip(next_brace(b, 1))) },
    }
}
proof fn lemma_not_brace(b: Seq<u8>)
    requires b.len() > 0, b[0] != 123,
    ensures sp_parse(b) == Err::<int, (PKind, int)>((PKind::Opener, 0)),
{ }
proof fn lemma_next_brace_ext(b: Seq<u8>, c: Seq<u8>, i: int)
    requires 0 <= i <= b.len(),
    ensures next_brace(b + c, i) == (if next_brace(b, i) < b.len() { next_brace(b, i) } else { b.len() + next_brace(c, 0) }),
    decreases b.len() - i,
{
    lemma_next_brace(b, i); lemma_next_brace(b + c, i); lemma_next_brace(c, 0);
    let (p, q, r) = (next_brace(b, i), next_brace(b + c, i), next_brace(c, 0));
    assert(forall|j: int| 0 <= j < b.len() ==> (b + c)[j] == b[j]);
    assert(forall|j: int| 0 <= j < c.len() ==> #[trigger] (b + c)[j + b.len()] == c[j]);
    if p < b.len() { assert((b + c)[p] == 123); if q < p { assert(b[q] == 123); } }
    else {
        if q < b.len() { assert(b[q] == 123); }
        if r < c.len() { assert((b + c)[r + b.len()] == 123); }
        if q < b.len() + r { assert(c[q - b.len()] == (b + c)[(q - b.len()) + b.len()]); }
    }
}
/// C14: how the input was split into reads does not matter for which messages are seen and what is left
pub proof fn lemma_split_reads(b: Seq<u8>, c: Seq<u8>)
    ensures frames(b + c) == frames(b) + frames(rest(b) + c), rest(b + c) == rest(rest(b) + c),
    decreases b.len(),
{
    hide(sp_elems); hide(sp_parse);
    lemma_parse_ext(b, c); lemma_parse_bounds(b); lemma_parse_bounds(b + c);
    match sp_parse(b) {
        Ok(n) => {
            assert((b + c).skip(n) =~= b.skip(n) + c);
            lemma_split_reads(b.skip(n), c);
            assert(frames(b + c) =~= frames(b) + frames(rest(b) + c));
        }
        Err(e) => {
            if e.0 != PKind::Eof {
                lemma_next_brace(b, 1); lemma_next_brace(b + c, 1); lemma_next_brace_ext(b, c, 1);
                let (k, q) = (next_brace(b, 1), next_brace(b + c, 1));
                if k < b.len() {
                    assert((b + c).skip(k) =~= b.skip(k) + c);
                    lemma_split_reads(b.skip(k), c);
                    assert(frames(b) == frames(b.skip(k)) && rest(b) == rest(b.skip(k)));
                    assert(frames(b + c) == frames((b + c).skip(q)) && rest(b + c) == rest((b + c).skip(q)));
                } else {
                    let z = b.skip(k);
                    assert(z =~= Seq::<u8>::empty());
                    lemma_parse_bounds(z);
                    assert(frames(z) =~= Seq::empty() && rest(z) =~= Seq::empty());
                    assert(rest(b) + c =~= c);
                    let r = next_brace(c, 0);
                    lemma_next_brace(c, 0);
                    assert((b + c).skip(q) =~= c.skip(r));
                    if r > 0 {
                        lemma_not_brace(c);
                        assert(next_brace(c, 0) == next_brace(c, 1));
                        assert(frames(c) == frames(c.skip(r)));
                    } else { assert(c.skip(0) =~= c); }
                    assert(frames(b + c) == frames(c));
                    assert(frames(b) + frames(c) =~= frames(c));
                }
            } else { assert(frames(b + c) =~= Seq::<Seq<Seq<u8>>>::empty() + frames(b + c)); }
        }
    }
}
} // verus!
