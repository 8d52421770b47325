// Secrets: stand-ins for the system's random source and for base64 (trusted), and what a good secret is.
use vstd::prelude::*;
verus! {
/// what has been drawn from the system's random source, one entry per request
pub type Draws = Seq<Seq<u8>>;
#[verifier::external_body] pub struct RandError { x: u8 }
#[verifier::external] impl core::fmt::Debug for RandError { fn fmt(&self, _: &mut core::fmt::Formatter) -> core::fmt::Result { unimplemented!() } }
/// getrandom::getrandom(b): when it reports an error nothing was drawn and b can hold anything
#[verifier::external_body] pub fn getrandom<T: Octets + ?Sized>(b: &mut T, g: &mut Ghost<Draws>) -> (r: core::result::Result<(), RandError>)
    ensures final(g)@ == (if r is Ok { old(g)@.push(final(b).octets()) } else { old(g)@ }), final(b).octets().len() == old(b).octets().len(),
{ unimplemented!() }
/// panicking is the answer to a random source that does not work: it hands out no secret (draws.py puts these in for unwrap, expect, panic!)
#[verifier::external_body] pub fn give_up() -> !
    ensures false,
{ unimplemented!() }
pub trait GiveUp { fn vp_or_give_up(self) -> (r: ()) ensures self.vp_ok(); spec fn vp_ok(self) -> bool; }
impl GiveUp for core::result::Result<(), RandError> {
    open spec fn vp_ok(self) -> bool { self is Ok }
    fn vp_or_give_up(self) -> (r: ()) { match self { Ok(()) => {}, Err(_) => give_up() } }
}
#[allow(non_camel_case_types)] pub enum Config { STANDARD, STANDARD_NO_PAD, URL_SAFE, URL_SAFE_NO_PAD, CRYPT, BCRYPT }
/// the text in that encoding, which determines the bytes; in the URL-safe ones it consists of letters, digits, hyphens, underscores (and equals signs at the end)
pub uninterp spec fn b64(x: Seq<u8>, c: Config) -> Seq<char>;
pub trait Octets { spec fn octets(&self) -> Seq<u8>; }
impl Octets for [u8] { open spec fn octets(&self) -> Seq<u8> { self@ } }
impl<const N: usize> Octets for [u8; N] { open spec fn octets(&self) -> Seq<u8> { self@ } }
impl Octets for Vec<u8> { open spec fn octets(&self) -> Seq<u8> { self@ } }
impl<'a, T: Octets + ?Sized> Octets for &'a T { open spec fn octets(&self) -> Seq<u8> { (**self).octets() } }
#[verifier::external_body] pub fn encode_config<T: Octets>(x: T, c: Config) -> (r: String)
    ensures r@ == b64(x.octets(), c),
{ unimplemented!() }
#[verifier::external_body] pub fn encode<T: Octets>(x: T) -> (r: String)
    ensures r@ == b64(x.octets(), Config::STANDARD),
{ unimplemented!() }
/// a URL-safe text of the bytes from a to b of the k-th draw, at least 128 bits
pub open spec fn secret_of(s: Seq<char>, g: Draws, k: int, a: int, b: int) -> bool {
    0 <= k < g.len() && 0 <= a && a + 16 <= b <= g[k].len() && (s == b64(g[k].subrange(a, b), Config::URL_SAFE) || s == b64(g[k].subrange(a, b), Config::URL_SAFE_NO_PAD))
}
/// nothing that was drawn before has changed
pub open spec fn drawn_since(g0: Draws, g1: Draws) -> bool { g0.len() <= g1.len() && g1.take(g0.len() as int) == g0 }
/// a secret made of something that was drawn between g0 and g1
pub open spec fn secret_since(s: Seq<char>, g0: Draws, g1: Draws) -> bool { exists|k: int, a: int, b: int| g0.len() <= k && #[trigger] secret_of(s, g1, k, a, b) }
/// two secrets made of what was drawn between g0 and g1, without a common byte
pub open spec fn secrets_since(s: Seq<char>, t: Seq<char>, g0: Draws, g1: Draws) -> bool {
    exists|k: int, a: int, b: int, l: int, c: int, d: int| g0.len() <= k && g0.len() <= l && (k != l || b <= c || d <= a) && #[trigger] secret_of(s, g1, k, a, b) && #[trigger] secret_of(t, g1, l, c, d)
}
pub proof fn lemma_drawn(g0: Draws, g1: Draws, g2: Draws)
    requires drawn_since(g0, g1), drawn_since(g1, g2),
    ensures drawn_since(g0, g2), forall|k: int| 0 <= k < g1.len() ==> #[trigger] g2[k] == g1[k],
{
    assert(g2.take(g0.len() as int) =~= g2.take(g1.len() as int).take(g0.len() as int));
    assert forall|k: int| 0 <= k < g1.len() implies #[trigger] g2[k] == g1[k] by { assert(g2[k] == g2.take(g1.len() as int)[k]); }
}
pub open spec fn urlsafe(c: Config) -> bool { c is URL_SAFE || c is URL_SAFE_NO_PAD }
pub proof fn lemma_all_drawn()
    ensures forall|g: Draws, x: Seq<u8>| drawn_since(g, #[trigger] g.push(x)),
        forall|g0: Draws, g1: Draws, g2: Draws| #[trigger] drawn_since(g0, g1) && #[trigger] drawn_since(g1, g2) ==> drawn_since(g0, g2),
        forall|s: Seq<char>, g0: Draws, g1: Draws, g2: Draws| #[trigger] secret_since(s, g0, g1) && #[trigger] drawn_since(g1, g2) ==> secret_since(s, g0, g2),
        forall|s: Seq<char>, g0: Draws, g1: Draws, g2: Draws| #[trigger] drawn_since(g0, g1) && #[trigger] secret_since(s, g1, g2) ==> secret_since(s, g0, g2),
        forall|s: Seq<char>, t: Seq<char>, g0: Draws, g1: Draws, g2: Draws| #[trigger] secret_since(s, g0, g1) && drawn_since(g0, g1) && drawn_since(g1, g2) && #[trigger] secret_since(t, g1, g2)
            ==> secrets_since(s, t, g0, g2) && secrets_since(t, s, g0, g2),
        forall|g: Draws, x: Seq<u8>, c: Config| x.len() >= 16 && urlsafe(c) ==> secret_since(#[trigger] b64(x, c), g, #[trigger] g.push(x)),
        forall|g: Draws, x: Seq<u8>, c: Config, a: int, b: int| 0 <= a && a + 16 <= b <= x.len() && urlsafe(c) ==> secret_since(#[trigger] b64(x.subrange(a, b), c), g, #[trigger] g.push(x)),
        forall|g: Draws, x: Seq<u8>, c: Config, a: int, b: int, e: Config, y: int, z: int| 0 <= a && a + 16 <= b <= y && y + 16 <= z <= x.len() && urlsafe(c) && urlsafe(e)
            && #[trigger] drawn_since(g, g.push(x)) ==> secrets_since(#[trigger] b64(x.subrange(a, b), c), #[trigger] b64(x.subrange(y, z), e), g, g.push(x)) && secrets_since(b64(x.subrange(y, z), e), b64(x.subrange(a, b), c), g, g.push(x)),
{
    assert forall|g: Draws, x: Seq<u8>| drawn_since(g, #[trigger] g.push(x)) by { assert(g.push(x).take(g.len() as int) =~= g); }
    assert forall|g0: Draws, g1: Draws, g2: Draws| #[trigger] drawn_since(g0, g1) && #[trigger] drawn_since(g1, g2) implies drawn_since(g0, g2) by { lemma_drawn(g0, g1, g2); }
    assert forall|s: Seq<char>, g0: Draws, g1: Draws, g2: Draws| #[trigger] secret_since(s, g0, g1) && #[trigger] drawn_since(g1, g2) implies secret_since(s, g0, g2) by {
        let (k, a, b) = choose|k: int, a: int, b: int| g0.len() <= k && #[trigger] secret_of(s, g1, k, a, b);
        lemma_secret(s, g1, g2, k, a, b);
    }
    assert forall|s: Seq<char>, g0: Draws, g1: Draws, g2: Draws| #[trigger] drawn_since(g0, g1) && #[trigger] secret_since(s, g1, g2) implies secret_since(s, g0, g2) by {
        let (k, a, b) = choose|k: int, a: int, b: int| g1.len() <= k && #[trigger] secret_of(s, g2, k, a, b);
        assert(g0.len() <= k && secret_of(s, g2, k, a, b));
    }
    assert forall|s: Seq<char>, t: Seq<char>, g0: Draws, g1: Draws, g2: Draws| #[trigger] secret_since(s, g0, g1) && drawn_since(g0, g1) && drawn_since(g1, g2) && #[trigger] secret_since(t, g1, g2)
            implies secrets_since(s, t, g0, g2) && secrets_since(t, s, g0, g2) by {
        let (k, a, b) = choose|k: int, a: int, b: int| g0.len() <= k && #[trigger] secret_of(s, g1, k, a, b);
        lemma_secret(s, g1, g2, k, a, b);
        let (l, c, d) = choose|l: int, c: int, d: int| g1.len() <= l && #[trigger] secret_of(t, g2, l, c, d);
        assert(k != l && secret_of(s, g2, k, a, b) && secret_of(t, g2, l, c, d));
    }
    assert forall|g: Draws, x: Seq<u8>, c: Config, a: int, b: int| 0 <= a && a + 16 <= b <= x.len() && urlsafe(c) implies secret_since(#[trigger] b64(x.subrange(a, b), c), g, #[trigger] g.push(x)) by {
        assert(secret_of(b64(x.subrange(a, b), c), g.push(x), g.len() as int, a, b));
    }
    assert forall|g: Draws, x: Seq<u8>, c: Config| x.len() >= 16 && urlsafe(c) implies secret_since(#[trigger] b64(x, c), g, #[trigger] g.push(x)) by {
        assert(x.subrange(0, x.len() as int) =~= x);
        assert(secret_of(b64(x, c), g.push(x), g.len() as int, 0, x.len() as int));
    }
    assert forall|g: Draws, x: Seq<u8>, c: Config, a: int, b: int, e: Config, y: int, z: int| 0 <= a && a + 16 <= b <= y && y + 16 <= z <= x.len() && urlsafe(c) && urlsafe(e)
            && #[trigger] drawn_since(g, g.push(x)) implies secrets_since(#[trigger] b64(x.subrange(a, b), c), #[trigger] b64(x.subrange(y, z), e), g, g.push(x)) && secrets_since(b64(x.subrange(y, z), e), b64(x.subrange(a, b), c), g, g.push(x)) by {
        assert(secret_of(b64(x.subrange(a, b), c), g.push(x), g.len() as int, a, b));
        assert(secret_of(b64(x.subrange(y, z), e), g.push(x), g.len() as int, y, z));
    }
}
pub proof fn lemma_secret(s: Seq<char>, g1: Draws, g2: Draws, k: int, a: int, b: int)
    requires secret_of(s, g1, k, a, b), drawn_since(g1, g2),
    ensures secret_of(s, g2, k, a, b),
{ lemma_drawn(g1, g1, g2); assert(g1.take(g1.len() as int) =~= g1); }
} // verus!
