// Specification functions (what the texts and grammars are) and the lemmas about them.
// Nothing here is assumed: every lemma is proved on every run.
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use crate::vstdx::*;
verus! {

// ------------------------------------------------------------------ decimal text
pub open spec fn is_digit_b(b: u8) -> bool { 48 <= b <= 57 }
pub open spec fn all_digits(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit_b(#[trigger] s[i]) }
/// the value of a string of digits
pub open spec fn val(s: Seq<u8>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { 10 * val(s.drop_last()) + (s.last() - 48) as nat }
}
/// the canonical decimal text of a number
pub open spec fn dec(n: nat) -> Seq<u8>
    decreases n,
{
    if n < 10 { seq![(48 + n) as u8] } else { dec(n / 10).push((48 + n % 10) as u8) }
}
pub open spec fn int_text(v: int) -> Seq<u8> {
    if v >= 0 { dec(v as nat) } else { seq![45u8] + dec((-v) as nat) }
}
pub proof fn lemma_dec(n: nat)
    ensures
        dec(n).len() >= 1,
        all_digits(dec(n)),
        val(dec(n)) == n,
        dec(n)[0] == 48 <==> n == 0,
        n < 10 <==> dec(n).len() == 1,
    decreases n,
{
    if n < 10 {
        assert(dec(n) =~= seq![(48 + n) as u8]);
        assert(dec(n).drop_last() =~= Seq::<u8>::empty());
        assert(val(dec(n).drop_last()) == 0);
    } else {
        lemma_dec(n / 10);
        assert(dec(n).drop_last() =~= dec(n / 10));
    }
}
pub proof fn lemma_val_dec(s: Seq<u8>)
    requires s.len() > 0, all_digits(s), s.len() == 1 || s[0] != 48,
    ensures dec(val(s)) == s,
    decreases s.len(),
{
    let p = s.drop_last();
    assert(val(s) == 10 * val(p) + (s.last() - 48) as nat);
    assert(is_digit_b(s.last()));
    if s.len() == 1 {
        assert(p =~= Seq::<u8>::empty());
        assert(val(p) == 0);
        assert(dec(val(s)) =~= s);
    } else {
        assert(all_digits(p)) by { assert forall|i: int| 0 <= i < p.len() implies is_digit_b(#[trigger] p[i]) by { assert(p[i] == s[i]); } }
        lemma_val_dec(p);
        lemma_dec(val(p));
        assert(p[0] == s[0]);
        assert(val(p) != 0);
        assert(val(s) / 10 == val(p));
        assert(val(s) % 10 == (s.last() - 48) as nat);
        assert(dec(val(s)) =~= p.push(s.last()));
        assert(p.push(s.last()) =~= s);
    }
}
pub proof fn lemma_dec_inj(a: nat, b: nat)
    requires dec(a) == dec(b),
    ensures a == b,
{ lemma_dec(a); lemma_dec(b); }
pub proof fn lemma_int_text(v: int)
    ensures
        int_text(v).len() >= 1,
        int_text(v)[0] == 45 <==> v < 0,
        v < 0 ==> int_text(v).skip(1) == dec((-v) as nat),
{
    lemma_dec(if v >= 0 { v as nat } else { (-v) as nat });
    if v < 0 { assert(int_text(v).skip(1) =~= dec((-v) as nat)); }
    else { assert(is_digit_b(dec(v as nat)[0])); }
}
pub proof fn lemma_int_text_inj(a: int, b: int)
    requires int_text(a) == int_text(b),
    ensures a == b,
{
    lemma_int_text(a); lemma_int_text(b);
    if a < 0 { lemma_dec_inj((-a) as nat, (-b) as nat); } else { lemma_dec_inj(a as nat, b as nat); }
}
/// the number of digits grows with the number
pub proof fn lemma_dec_len_mono(a: nat, b: nat)
    requires a <= b,
    ensures dec(a).len() <= dec(b).len(),
    decreases b,
{
    lemma_dec(a); lemma_dec(b);
    if b >= 10 && a >= 10 { lemma_dec_len_mono(a / 10, b / 10); }
}
/// accepting a text with the standard parser, after the checks that make it canonical
pub proof fn lemma_canonical(s: Seq<u8>, lo: int, hi: int)
    requires
        lo <= 0 <= hi,
        s.len() > 0,
        s[0] != 43,
        s[0] == 48 ==> s.len() == 1,
        s[0] == 45 && s.len() > 1 ==> s[1] != 48,
    ensures
        std_int_parse(s, lo, hi) matches Some(v) ==> lo <= v <= hi && int_text(v) == s,
        std_int_parse(s, lo, hi) is None ==> forall|v: int| lo <= v <= hi ==> int_text(v) != s,
{
    let neg = s[0] == 45 && lo < 0;
    let d = if neg { s.skip(1) } else { s };
    if d.len() > 0 && all_digits(d) {
        assert(neg ==> d[0] == s[1]);
        lemma_val_dec(d);
        lemma_dec(val(d));
        let v = if neg { -(val(d) as int) } else { val(d) as int };
        if neg { assert(val(d) != 0); assert(s =~= seq![45u8] + d); }
        assert(int_text(v) == s);
        assert forall|w: int| int_text(w) == s implies w == v by { lemma_int_text_inj(w, v); }
    } else {
        assert forall|w: int| lo <= w <= hi implies int_text(w) != s by {
            lemma_int_text(w);
            if int_text(w) == s {
                if w < 0 { lemma_dec((-w) as nat); assert(d == dec((-w) as nat)); }
                else { lemma_dec(w as nat); assert(is_digit_b(s[0])); assert(d == dec(w as nat)); }
            }
        }
    }
}
/// a text that fails one of the checks is the text of no number
pub proof fn lemma_not_canonical(s: Seq<u8>)
    requires
        s.len() == 0 || s[0] == 43 || (s[0] == 48 && s.len() != 1) || (s[0] == 45 && s.len() > 1 && s[1] == 48),
    ensures forall|v: int| int_text(v) != s,
{
    assert forall|v: int| int_text(v) != s by {
        lemma_int_text(v);
        if int_text(v) == s {
            if v < 0 {
                lemma_dec((-v) as nat);
                assert(s.skip(1)[0] == s[1]);
            } else { lemma_dec(v as nat); assert(is_digit_b(s[0])); }
        }
    }
}
pub open spec fn mag_of(v: int) -> nat { if v >= 0 { v as nat } else { (-v) as nat } }
/// the text of the largest 128-bit number has 39 digits
pub proof fn lemma_dec_max()
    ensures dec(340282366920938463463374607431768211455).len() == 39,
{ assert(dec(340282366920938463463374607431768211455).len() == 39) by (compute); }
/// digits are ASCII, hence UTF-8
pub proof fn lemma_ascii_valid(s: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 128,
    ensures valid_utf8(s),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.subrange(1, s.len() as int);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] < 128 by { assert(t[i] == s[i + 1]); }
        lemma_ascii_valid(t);
        assert(s[0] < 128);
        assert(is_leading_byte_width_1(s[0]));
        let b = s[0];
        assert(b & 127 == b) by (bit_vector) requires b < 128;
        assert(valid_first_scalar(s));
        assert(pop_first_scalar(s) =~= t);
    }
}
pub proof fn lemma_int_text_ascii(v: int)
    ensures forall|i: int| 0 <= i < int_text(v).len() ==> #[trigger] int_text(v)[i] < 128,
{
    let n = mag_of(v);
    lemma_dec(n);
    assert forall|i: int| 0 <= i < int_text(v).len() implies #[trigger] int_text(v)[i] < 128 by {
        if v < 0 { if i > 0 { assert(int_text(v)[i] == dec(n)[i - 1]); assert(is_digit_b(dec(n)[i - 1])); } }
        else { assert(is_digit_b(dec(n)[i])); }
    }
}
} // verus!
