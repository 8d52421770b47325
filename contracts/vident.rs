// Grammars of the identifier-like types, on bytes, and the lemmas that relate them to characters.
// Nothing here is assumed.
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use crate::vstdx::*;
use crate::vspec::*;
verus! {

pub open spec fn is_alpha_b(b: u8) -> bool { 65 <= b <= 90 || 97 <= b <= 122 }
pub open spec fn is_alnum_b(b: u8) -> bool { is_alpha_b(b) || is_digit_b(b) }
pub open spec fn is_leader_b(b: u8) -> bool { is_alpha_b(b) || b == 95 }
pub open spec fn is_ident_b(b: u8) -> bool { is_alpha_b(b) || b == 95 || b == 45 }
/// a character that is ASCII and whose byte satisfies p
pub open spec fn is_ascii_c(c: char) -> bool { (c as int) < 128 }

pub open spec fn client_id_ok(s: Seq<u8>) -> bool {
    s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> is_alnum_b(#[trigger] s[i])
}
pub open spec fn ident_ok(s: Seq<u8>) -> bool {
    s.len() > 0 && is_leader_b(s[0]) && forall|i: int| 0 <= i < s.len() ==> is_ident_b(#[trigger] s[i])
}
/// s is the module identifier with the k-byte name and the major version v
pub open spec fn module_is(s: Seq<u8>, k: int, v: int) -> bool {
    0 < k < s.len() && ident_ok(s.take(k)) && 1 <= v <= 65535 && s.skip(k) == dec(v as nat)
}
pub open spec fn module_ok(s: Seq<u8>) -> bool { exists|k: int, v: int| module_is(s, k, v) }
pub open spec fn modver_is(s: Seq<u8>, d: int, v: int) -> bool {
    0 <= d < s.len() && s[d] == 46 && module_ok(s.take(d)) && 0 <= v <= 65535 && s.skip(d + 1) == dec(v as nat)
}
pub open spec fn modver_ok(s: Seq<u8>) -> bool { exists|d: int, v: int| modver_is(s, d, v) }
pub open spec fn scoped_is(s: Seq<u8>, d: int) -> bool {
    0 <= d < s.len() && s[d] == 46 && module_ok(s.take(d)) && ident_ok(s.skip(d + 1))
}
pub open spec fn scoped_ok(s: Seq<u8>) -> bool { exists|d: int| scoped_is(s, d) }
pub open spec fn b_want() -> Seq<u8> { seq![119u8, 97u8, 110u8, 116u8] }
pub open spec fn b_have() -> Seq<u8> { seq![104u8, 97u8, 118u8, 101u8] }
pub open spec fn b_nope() -> Seq<u8> { seq![110u8, 111u8, 112u8, 101u8] }
pub open spec fn msgtype_ok(s: Seq<u8>) -> bool {
    s == b_want() || s == b_have() || s == b_nope() || scoped_ok(s)
}

// ------------------------------------------------------------------ characters and bytes
pub proof fn lemma_ascii_scalar(c: char)
    requires is_ascii_c(c),
    ensures encode_scalar(c as u32) == seq![c as u8],
{
    is_ascii_chars_encode_utf8(seq![c]);
    encode_utf8_first_scalar(seq![c]);
    assert(seq![c].drop_first() =~= Seq::<char>::empty());
    assert(encode_utf8(seq![c]) =~= seq![c as u8]);
    assert(encode_utf8(seq![c]) =~= encode_scalar(c as u32));
}
/// an ASCII prefix of n characters is n bytes; the byte after it tells what the next character is
pub proof fn lemma_ascii_prefix(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> is_ascii_c(#[trigger] s[i]),
    ensures
        n <= encode_utf8(s).len(),
        forall|i: int| 0 <= i < n ==> encode_utf8(s)[i] == (#[trigger] s[i]) as u8,
        n == s.len() ==> encode_utf8(s).len() == n,
        n < s.len() ==> n < encode_utf8(s).len() && (if is_ascii_c(s[n]) { encode_utf8(s)[n] == s[n] as u8 } else { encode_utf8(s)[n] >= 128 }),
        is_char_boundary(encode_utf8(s), n),
        encode_utf8(s).skip(n) == encode_utf8(s.skip(n)),
{
    let a = s.take(n);
    let b = s.skip(n);
    assert(s =~= a + b);
    encode_utf8_concat(a, b);
    assert(is_ascii_chars(a));
    is_ascii_chars_encode_utf8(a);
    let e = encode_utf8(s);
    assert(e == encode_utf8(a) + encode_utf8(b));
    assert forall|i: int| 0 <= i < n implies e[i] == (#[trigger] s[i]) as u8 by { assert(a[i] == s[i]); }
    assert(e.skip(n) =~= encode_utf8(b));
    encode_utf8_valid_utf8(s);
    encode_utf8_valid_utf8(b);
    encode_utf8_valid_utf8(a);
    if n == s.len() {
        assert(b =~= Seq::<char>::empty());
        assert(encode_utf8(b) =~= Seq::<u8>::empty());
        is_char_boundary_start_end_of_seq(e);
    } else {
        let c = s[n];
        assert(b[0] == c);
        encode_utf8_first_scalar(b);
        lemma_first_byte(b);
        assert(e[n] == encode_utf8(b)[0]);
        is_char_boundary_iff_is_leading_byte(e, n);
    }
}
/// the first byte of an encoded, non-empty text is a leading byte, below 128 exactly if the first character is
pub proof fn lemma_first_byte(b: Seq<char>)
    requires b.len() > 0,
    ensures
        encode_utf8(b).len() > 0,
        if is_ascii_c(b[0]) { encode_utf8(b)[0] == b[0] as u8 } else { encode_utf8(b)[0] >= 128 },
        !is_continuation_byte(encode_utf8(b)[0]),
{
    let c = b[0];
    let e = encode_utf8(b);
    encode_utf8_valid_utf8(b);
    encode_utf8_first_scalar(b);
    assert(b =~= seq![c] + b.drop_first());
    encode_utf8_concat(seq![c], b.drop_first());
    if is_ascii_c(c) {
        is_ascii_chars_encode_utf8(seq![c]);
        assert(e[0] == encode_utf8(seq![c])[0]);
    } else {
        encode_utf8_first_scalar(seq![c]);
        encode_utf8_decode_utf8(seq![c]);
        encode_utf8_valid_utf8(seq![c]);
        if e[0] < 128 {
            // then the text would start with an ASCII scalar
            encode_utf8_decode_utf8(b);
        }
    }
    is_char_boundary_start_end_of_seq(e);
}

// ------------------------------------------------------------------ grammars
pub proof fn lemma_ident_chars(s: Seq<u8>)
    requires ident_ok(s),
    ensures forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] < 128 && s[j] != 46 && !is_digit_b(s[j]),
{}
pub proof fn lemma_module_chars(s: Seq<u8>, k: int, v: int)
    requires module_is(s, k, v),
    ensures forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] < 128 && s[j] != 46,
{
    lemma_ident_chars(s.take(k));
    lemma_dec(v as nat);
    assert forall|j: int| 0 <= j < s.len() implies #[trigger] s[j] < 128 && s[j] != 46 by {
        if j < k { assert(s[j] == s.take(k)[j]); } else { assert(s[j] == s.skip(k)[j - k]); assert(is_digit_b(s.skip(k)[j - k])); }
    }
}
pub proof fn lemma_module_ok_chars(s: Seq<u8>)
    requires module_ok(s),
    ensures forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] < 128 && s[j] != 46,
{
    let (k, v) = choose|k: int, v: int| module_is(s, k, v);
    lemma_module_chars(s, k, v);
}
pub proof fn lemma_scoped_chars(s: Seq<u8>, d: int)
    requires scoped_is(s, d),
    ensures forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] < 128 && (s[j] == 46 <==> j == d),
{
    lemma_module_ok_chars(s.take(d));
    lemma_ident_chars(s.skip(d + 1));
    assert forall|j: int| 0 <= j < s.len() implies #[trigger] s[j] < 128 && (s[j] == 46 <==> j == d) by {
        if j < d { assert(s[j] == s.take(d)[j]); } else if j > d { assert(s[j] == s.skip(d + 1)[j - d - 1]); }
    }
}
pub proof fn lemma_modver_chars(s: Seq<u8>, d: int, v: int)
    requires modver_is(s, d, v),
    ensures forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] < 128 && (s[j] == 46 <==> j == d),
{
    lemma_module_ok_chars(s.take(d));
    lemma_dec(v as nat);
    assert forall|j: int| 0 <= j < s.len() implies #[trigger] s[j] < 128 && (s[j] == 46 <==> j == d) by {
        if j < d { assert(s[j] == s.take(d)[j]); } else if j > d { assert(s[j] == s.skip(d + 1)[j - d - 1]); assert(is_digit_b(s.skip(d + 1)[j - d - 1])); }
    }
}
/// every text of one of the grammars is valid UTF-8
pub proof fn lemma_grammar_utf8(s: Seq<u8>)
    ensures
        client_id_ok(s) ==> valid_utf8(s),
        ident_ok(s) ==> valid_utf8(s),
        module_ok(s) ==> valid_utf8(s),
        modver_ok(s) ==> valid_utf8(s),
        scoped_ok(s) ==> valid_utf8(s),
        msgtype_ok(s) ==> valid_utf8(s),
{
    if client_id_ok(s) { lemma_ascii_valid(s); }
    if ident_ok(s) { lemma_ident_chars(s); lemma_ascii_valid(s); }
    if module_ok(s) { lemma_module_ok_chars(s); lemma_ascii_valid(s); }
    if modver_ok(s) { let (d, v) = choose|d: int, v: int| modver_is(s, d, v); lemma_modver_chars(s, d, v); lemma_ascii_valid(s); }
    if scoped_ok(s) { let d = choose|d: int| scoped_is(s, d); lemma_scoped_chars(s, d); lemma_ascii_valid(s); }
    if s == b_want() || s == b_have() || s == b_nope() { lemma_ascii_valid(s); }
}
pub proof fn lemma_grammar_all_utf8()
    ensures forall|s: Seq<u8>| #[trigger] msgtype_ok(s) ==> valid_utf8(s),
{ assert forall|s: Seq<u8>| #[trigger] msgtype_ok(s) implies valid_utf8(s) by { lemma_grammar_utf8(s); } }
/// where the name of a module identifier ends
pub proof fn lemma_module_end(s: Seq<u8>, n: int)
    requires
        0 <= n <= s.len(),
        forall|i: int| 0 <= i < n ==> is_ident_b(#[trigger] s[i]),
        n < s.len() ==> !is_ident_b(s[n]),
    ensures
        n == s.len() ==> !module_ok(s),
        n < s.len() ==> !ident_ok(s),
        forall|k: int, v: int| #[trigger] module_is(s, k, v) ==> k == n && is_digit_b(s[n]) && s[n] != 48,
{
    assert forall|k: int, v: int| #[trigger] module_is(s, k, v) implies k == n && is_digit_b(s[n]) && s[n] != 48 by {
        lemma_dec(v as nat);
        assert(s.skip(k)[0] == s[k]);
        assert(is_digit_b(s.skip(k)[0]));
        lemma_ident_chars(s.take(k));
        if k > n { assert(s.take(k)[n] == s[n]); }
    }
}
/// a text whose characters are all ASCII has these bytes, and only then are all its bytes ASCII
pub proof fn lemma_all_chars(cs: Seq<char>)
    ensures
        cs.len() == 0 <==> encode_utf8(cs).len() == 0,
        (forall|i: int| 0 <= i < cs.len() ==> is_ascii_c(#[trigger] cs[i]) && is_alnum_b(cs[i] as u8))
            <==> (forall|i: int| 0 <= i < encode_utf8(cs).len() ==> is_alnum_b(#[trigger] encode_utf8(cs)[i])),
{
    let bs = encode_utf8(cs);
    if cs.len() > 0 { lemma_first_byte(cs); } else { lemma_ascii_prefix(cs, 0); }
    if forall|i: int| 0 <= i < cs.len() ==> is_ascii_c(#[trigger] cs[i]) && is_alnum_b(cs[i] as u8) {
        lemma_ascii_prefix(cs, cs.len() as int);
        assert forall|i: int| 0 <= i < bs.len() implies is_alnum_b(#[trigger] bs[i]) by { assert(bs[i] == cs[i] as u8); }
    }
    if forall|i: int| 0 <= i < bs.len() ==> is_alnum_b(#[trigger] bs[i]) {
        lemma_bytes_alnum(cs, cs.len() as int);
    }
}
pub proof fn lemma_bytes_alnum(cs: Seq<char>, n: int)
    requires 0 <= n <= cs.len(), forall|i: int| 0 <= i < encode_utf8(cs).len() ==> is_alnum_b(#[trigger] encode_utf8(cs)[i]),
    ensures forall|i: int| 0 <= i < n ==> is_ascii_c(#[trigger] cs[i]) && is_alnum_b(cs[i] as u8),
    decreases n,
{
    if n > 0 {
        lemma_bytes_alnum(cs, n - 1);
        lemma_ascii_prefix(cs, n - 1);
        assert(is_alnum_b(encode_utf8(cs)[n - 1]));
    }
}
/// what is known about position n before it is looked at
pub proof fn lemma_module_end_or(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> is_ident_b(#[trigger] s[i]),
    ensures
        n == s.len() ==> !module_ok(s),
        n < s.len() && !is_ident_b(s[n]) ==> !ident_ok(s),
        n < s.len() && !is_ident_b(s[n]) && !(is_digit_b(s[n]) && s[n] != 48) ==> !module_ok(s),
{
    if n == s.len() || !is_ident_b(s[n]) { lemma_module_end(s, n); }
}
/// splitting a text at its first dot
pub open spec fn first_dot(s: Seq<u8>, d: int) -> bool { 0 <= d < s.len() && s[d] == 46 && forall|j: int| 0 <= j < d ==> s[j] != 46 }
pub proof fn lemma_dot_split(cs: Seq<char>)
    ensures
        ({
            let s = encode_utf8(cs);
            &&& valid_utf8(s)
            &&& is_char_boundary(s, 0) && is_char_boundary(s, s.len() as int)
            &&& (forall|d: int| 0 <= d < s.len() ==> #[trigger] s[d] != 46) ==> !scoped_ok(s) && !modver_ok(s)
            &&& forall|d: int| #[trigger] first_dot(s, d) ==>
                    is_char_boundary(s, d) && is_char_boundary(s, d + 1)
                    && s == s.take(d) + seq![46u8] + s.skip(d + 1)
                    && s.subrange(0, d) == s.take(d) && s.subrange(d + 1, s.len() as int) == s.skip(d + 1)
                    && (scoped_ok(s) <==> module_ok(s.take(d)) && ident_ok(s.skip(d + 1)))
                    && (modver_ok(s) ==> module_ok(s.take(d)) && exists|v: u16| s.skip(d + 1) == #[trigger] int_text(v as int))
                    && (forall|v: u16| module_ok(s.take(d)) && s.skip(d + 1) == #[trigger] int_text(v as int) ==> modver_ok(s))
        }),
{
    let s = encode_utf8(cs);
    encode_utf8_valid_utf8(cs);
    is_char_boundary_start_end_of_seq(s);
    assert forall|d: int| #[trigger] first_dot(s, d) implies
                    is_char_boundary(s, d) && is_char_boundary(s, d + 1)
                    && s == s.take(d) + seq![46u8] + s.skip(d + 1)
                    && s.subrange(0, d) == s.take(d) && s.subrange(d + 1, s.len() as int) == s.skip(d + 1)
                    && (scoped_ok(s) <==> module_ok(s.take(d)) && ident_ok(s.skip(d + 1)))
                    && (modver_ok(s) ==> module_ok(s.take(d)) && exists|v: u16| s.skip(d + 1) == #[trigger] int_text(v as int))
                    && (forall|v: u16| module_ok(s.take(d)) && s.skip(d + 1) == #[trigger] int_text(v as int) ==> modver_ok(s))
    by {
        lemma_ascii_boundary(s, d);
        assert(s =~= s.take(d) + seq![46u8] + s.skip(d + 1));
        if module_ok(s.take(d)) && ident_ok(s.skip(d + 1)) { assert(scoped_is(s, d)); }
        if scoped_ok(s) { let e = choose|e: int| scoped_is(s, e); lemma_scoped_chars(s, e); assert(e == d); }
        if modver_ok(s) {
            let (e, v) = choose|e: int, v: int| modver_is(s, e, v);
            lemma_modver_chars(s, e, v); assert(e == d);
            assert(s.skip(d + 1) == int_text(v as u16 as int));
        }
        assert forall|v: u16| module_ok(s.take(d)) && s.skip(d + 1) == #[trigger] int_text(v as int) implies modver_ok(s) by { assert(modver_is(s, d, v as int)); }
    }
}
/// an ASCII byte is a whole character
pub proof fn lemma_ascii_boundary(s: Seq<u8>, d: int)
    requires valid_utf8(s), 0 <= d < s.len(), s[d] < 128,
    ensures is_char_boundary(s, d), is_char_boundary(s, d + 1),
{
    let b = s[d];
    assert(is_leading_byte_width_1(b));
    assert(!is_continuation_byte(b));
    is_char_boundary_iff_not_is_continuation_byte(s, d);
    valid_utf8_split(s, d);
    let t = s.subrange(d, s.len() as int);
    assert(t[0] == b);
    assert(valid_utf8(t));
    let u = pop_first_scalar(t);
    assert(u =~= t.subrange(1, t.len() as int));
    if d + 1 == s.len() { is_char_boundary_start_end_of_seq(s); }
    else {
        assert(u.len() > 0);
        assert(valid_utf8(u));
        assert(u[0] == s[d + 1]);
        is_char_boundary_start_end_of_seq(u);
        is_char_boundary_iff_not_is_continuation_byte(u, 0);
        is_char_boundary_iff_not_is_continuation_byte(s, d + 1);
    }
}
/// the three eternal message types are distinct, and none of them is a scoped identifier
pub proof fn lemma_types()
    ensures
        b_want() != b_have(), b_have() != b_nope(), b_want() != b_nope(),
        !scoped_ok(b_want()), !scoped_ok(b_have()), !scoped_ok(b_nope()),
{
    assert(b_want()[0] == 119 && b_have()[0] == 104 && b_nope()[0] == 110);
    lemma_no_dot(b_want()); lemma_no_dot(b_have()); lemma_no_dot(b_nope());
}
pub proof fn lemma_no_dot(s: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] != 46,
    ensures !scoped_ok(s), !modver_ok(s),
{
    if scoped_ok(s) { let d = choose|d: int| scoped_is(s, d); assert(s[d] == 46); }
    if modver_ok(s) { let (d, v) = choose|d: int, v: int| modver_is(s, d, v); assert(s[d] == 46); }
}
pub proof fn lemma_empty_args(a: Seq<Seq<u8>>)
    ensures forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]).len() == 0 ==> a[i] == Seq::<u8>::empty() && valid_utf8(a[i]),
{ lemma_ascii_valid(Seq::empty()); assert forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]).len() == 0 implies a[i] == Seq::<u8>::empty() by { assert(a[i] =~= Seq::empty()); } }
} // verus!
