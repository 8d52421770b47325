// Two's complement: the magnitude that the integer codecs compute. Proved by bit blasting.
use vstd::prelude::*;
use vstd::string::*;
verus! {
pub open spec fn same<T>(a: T, b: T) -> bool { a == b }
global size_of usize == 8;

pub proof fn lemma_neg_i8_u32(x: i8)
    ensures x < 0 ==> !(x as u32) == (-1 - x) as u32, x >= 0 ==> (x as u32) == x as int,
{ assert(x < 0 ==> !(x as u32) == (-1 - x) as u32) by (bit_vector); }
pub proof fn lemma_neg_u8_u32(x: u8) ensures x >= 0 {}
pub proof fn lemma_neg_i16_u32(x: i16)
    ensures x < 0 ==> !(x as u32) == (-1 - x) as u32, x >= 0 ==> (x as u32) == x as int,
{ assert(x < 0 ==> !(x as u32) == (-1 - x) as u32) by (bit_vector); }
pub proof fn lemma_neg_u16_u32(x: u16) ensures x >= 0 {}
pub proof fn lemma_neg_i32_u32(x: i32)
    ensures x < 0 ==> !(x as u32) == (-1 - x) as u32, x >= 0 ==> (x as u32) == x as int,
{ assert(x < 0 ==> !(x as u32) == (-1 - x) as u32) by (bit_vector); }
pub proof fn lemma_neg_u32_u32(x: u32) ensures x >= 0 {}
pub proof fn lemma_neg_i64_u64(x: i64)
    ensures x < 0 ==> !(x as u64) == (-1 - x) as u64, x >= 0 ==> (x as u64) == x as int,
{ assert(x < 0 ==> !(x as u64) == (-1 - x) as u64) by (bit_vector); }
pub proof fn lemma_neg_u64_u64(x: u64) ensures x >= 0 {}
pub proof fn lemma_neg_i128_u128(x: i128)
    ensures x < 0 ==> !(x as u128) == (-1 - x) as u128, x >= 0 ==> (x as u128) == x as int,
{ assert(x < 0 ==> !(x as u128) == (-1 - x) as u128) by (bit_vector); }
pub proof fn lemma_neg_u128_u128(x: u128) ensures x >= 0 {}
pub proof fn lemma_neg_isize_u64(x: isize)
    ensures x < 0 ==> !(x as u64) == (-1 - x) as u64, x >= 0 ==> (x as u64) == x as int,
{ assert(x < 0 ==> !(x as u64) == (-1 - x) as u64) by (bit_vector); }
pub proof fn lemma_neg_usize_u64(x: usize) ensures x >= 0 {}

/// what matching a slice against a byte string literal decides
pub fn bytes_are<const N: usize>(a: &[u8], b: &[u8; N]) -> (r: bool)
    ensures r == (a@ == b@),
{
    if a.len() != N { return false; }
    let mut i: usize = 0;
    while i < N
        invariant i <= N, a@.len() == N, forall|j: int| 0 <= j < i ==> #[trigger] a@[j] == b@[j],
        decreases N - i,
    {
        if a[i] != b[i] { return false; }
        i += 1;
    }
    assert(a@ =~= b@);
    true
}

/// texts with the same bytes are the same text
pub proof fn lemma_str_ext(a: &str, b: &str)
    ensures a.spec_bytes() == b.spec_bytes() <==> a@ == b@,
{ vstd::utf8::encode_utf8_decode_utf8(a@); vstd::utf8::encode_utf8_decode_utf8(b@); }
pub broadcast proof fn lemma_bytes_text(s: &str)
    ensures #[trigger] s.spec_bytes() == vstd::utf8::encode_utf8(s@), vstd::utf8::decode_utf8(s.spec_bytes()) == s@,
{ vstd::utf8::encode_utf8_decode_utf8(s@); }
pub broadcast group group_num { lemma_bytes_text }
/// what matching a text against a string literal decides
pub fn str_is(a: &str, b: &str) -> (r: bool)
    ensures r == (a.spec_bytes() == b.spec_bytes()),
{
    proof { lemma_str_ext(a, b); }
    a == b
}

/// panic!(..): has to be shown unreachable
#[verifier::external_body]
pub fn vpanic() -> !
    requires false,
{ panic!() }
/// panic!(..) of a function whose documentation announces it: allowed under that condition (directive `panics`), and nothing follows it
#[verifier::external_body]
pub fn vpanic_if(c: Ghost<bool>) -> !
    requires c@,
{ panic!() }
#[verifier::external_body]
pub fn vcheck_if(c: Ghost<bool>, b: bool)
    requires b || c@,
    ensures b,
{ assert!(b) }
/// unwrap() and expect() in such a function
pub trait VpOr: Sized {
    type Out;
    spec fn vp_has(&self) -> bool;
    spec fn vp_val(&self) -> Self::Out;
    fn vp_or_panic(self, c: Ghost<bool>) -> (r: Self::Out)
        requires self.vp_has() || c@,
        ensures self.vp_has() && r == self.vp_val();
}
impl<T> VpOr for Option<T> {
    type Out = T;
    open spec fn vp_has(&self) -> bool { self is Some }
    open spec fn vp_val(&self) -> T { self->0 }
    #[verifier::external_body]
    fn vp_or_panic(self, c: Ghost<bool>) -> T { self.unwrap() }
}
impl<T, E> VpOr for Result<T, E> {
    type Out = T;
    open spec fn vp_has(&self) -> bool { self is Ok }
    open spec fn vp_val(&self) -> T { self->Ok_0 }
    #[verifier::external_body]
    fn vp_or_panic(self, c: Ghost<bool>) -> T { match self { Ok(x) => x, Err(_) => panic!() } }
}
/// assert!(c): the condition has to be proved
pub fn vcheck(c: bool)
    requires c,
{}
} // verus!
