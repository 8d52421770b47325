// What a message is: its text, and a specification parser that says, position by position, what the
// first deviation from the grammar is. Nothing here is assumed.
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use crate::vstdx::*;
use crate::vspec::*;
use crate::vident::*;
verus! {

// ------------------------------------------------------------------ texts
pub open spec fn netstr(s: Seq<u8>) -> Seq<u8> { dec(s.len()) + seq![58u8] + s + seq![44u8] }
pub open spec fn items_text(a: Seq<Seq<u8>>) -> Seq<u8>
    decreases a.len(),
{
    if a.len() == 0 { Seq::empty() } else { netstr(a[0]) + items_text(a.skip(1)) }
}
pub open spec fn msg_text(a: Seq<Seq<u8>>) -> Seq<u8> {
    seq![123u8] + dec(a.len()) + seq![124u8] + items_text(a) + seq![125u8]
}

pub open spec fn msg2(a: Seq<u8>, b: Seq<u8>) -> Seq<Seq<u8>> { seq![a, b] }
pub open spec fn msg3(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) -> Seq<Seq<u8>> { seq![a, b, c] }
pub open spec fn msg5(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>, e: Seq<u8>) -> Seq<Seq<u8>> { seq![a, b, c, d, e] }

// ------------------------------------------------------------------ the specification parser
pub enum PKind { Eof, Opener, Closer, Number, TooLarge, Zeroes, ListSigil, StrSigil, StrCloser, NoType, BadType }

pub open spec fn sp_char(b: Seq<u8>, o: int, c: u8, k: PKind) -> Result<int, (PKind, int)> {
    if o >= b.len() { Err((PKind::Eof, o)) } else if b[o] != c { Err((k, o)) } else { Ok(o + 1) }
}
/// the end of the run of digits that starts at o
pub open spec fn digits_end(b: Seq<u8>, o: int) -> int
    decreases b.len() - o,
{
    if 0 <= o < b.len() && is_digit_b(b[o]) { digits_end(b, o + 1) } else { o }
}
pub open spec fn sp_dec(b: Seq<u8>, o: int) -> Result<(int, int), (PKind, int)> {
    let e = digits_end(b, o);
    if o >= b.len() { Err((PKind::Eof, o)) }
    else if e == o { Err((PKind::Number, o)) }
    else if e - o > 1 && b[o] == 48 { Err((PKind::Zeroes, e)) }
    else if val(b.subrange(o, e)) > usize::MAX { Err((PKind::TooLarge, e)) }
    else { Ok((val(b.subrange(o, e)) as int, e)) }
}
/// (start and end of the contents, offset behind the closer)
pub open spec fn sp_str(b: Seq<u8>, o: int) -> Result<(int, int, int), (PKind, int)> {
    match sp_dec(b, o) {
        Err(e) => Err(e),
        Ok((n, o1)) => match sp_char(b, o1, 58, PKind::StrSigil) {
            Err(e) => Err(e),
            Ok(o2) => if o2 + n > b.len() { Err((PKind::Eof, b.len() as int)) } else {
                match sp_char(b, o2 + n, 44, PKind::StrCloser) { Err(e) => Err(e), Ok(o3) => Ok((o2, o2 + n, o3)) }
            },
        },
    }
}
pub open spec fn sp_items(b: Seq<u8>, o: int, n: int) -> Result<int, (PKind, int)>
    decreases n,
{
    if n <= 0 { Ok(o) } else { match sp_str(b, o) { Err(e) => Err(e), Ok((s, e, o2)) => sp_items(b, o2, n - 1) } }
}
pub open spec fn sp_args(b: Seq<u8>, o: int, n: int) -> Seq<Seq<u8>>
    decreases n,
{
    if n <= 0 { Seq::empty() } else { match sp_str(b, o) { Err(e) => Seq::empty(), Ok((s, e, o2)) => seq![b.subrange(s, e)] + sp_args(b, o2, n - 1) } }
}
/// behind the list sigil: (number of elements, offset)
pub open spec fn sp_head(b: Seq<u8>) -> Result<(int, int), (PKind, int)> {
    match sp_char(b, 0, 123, PKind::Opener) {
        Err(e) => Err(e),
        Ok(o1) => match sp_dec(b, o1) {
            Err(e) => Err(e),
            Ok((n, o2)) => match sp_char(b, o2, 124, PKind::ListSigil) { Err(e) => Err(e), Ok(o3) => Ok((n, o3)) },
        },
    }
}
/// the length of the message that b starts with
pub open spec fn sp_parse(b: Seq<u8>) -> Result<int, (PKind, int)> {
    match sp_head(b) {
        Err(e) => Err(e),
        Ok((n, o)) => if n == 0 { Err((PKind::NoType, o)) } else {
            match sp_str(b, o) {
                Err(e) => Err(e),
                Ok((s, e, o2)) => if !msgtype_ok(b.subrange(s, e)) { Err((PKind::BadType, o2)) } else {
                    match sp_items(b, o2, n - 1) { Err(e) => Err(e), Ok(o3) => sp_char(b, o3, 125, PKind::Closer) }
                },
            }
        },
    }
}
/// the elements of the message that b starts with (the first is the message type)
pub open spec fn sp_elems(b: Seq<u8>) -> Seq<Seq<u8>> {
    match sp_head(b) { Err(e) => Seq::empty(), Ok((n, o)) => sp_args(b, o, n) }
}

// ------------------------------------------------------------------ bounds
pub proof fn lemma_digits_end(b: Seq<u8>, o: int)
    requires 0 <= o <= b.len(),
    ensures
        o <= digits_end(b, o) <= b.len(),
        forall|i: int| o <= i < digits_end(b, o) ==> is_digit_b(#[trigger] b[i]),
        digits_end(b, o) < b.len() ==> !is_digit_b(b[digits_end(b, o)]),
        all_digits(b.subrange(o, digits_end(b, o))),
    decreases b.len() - o,
{
    if o < b.len() && is_digit_b(b[o]) { lemma_digits_end(b, o + 1); }
}
pub proof fn lemma_digits_end_is(b: Seq<u8>, o: int, e: int)
    requires 0 <= o <= e <= b.len(), forall|i: int| o <= i < e ==> is_digit_b(#[trigger] b[i]), e < b.len() ==> !is_digit_b(b[e]),
    ensures digits_end(b, o) == e,
    decreases e - o,
{
    if o < e { assert(is_digit_b(b[o])); lemma_digits_end_is(b, o + 1, e); }
}
pub proof fn lemma_sp_str_bounds(b: Seq<u8>, o: int)
    requires 0 <= o <= b.len(),
    ensures match sp_str(b, o) {
        Ok((s, e, o2)) => o < s <= e < o2 <= b.len() && o2 == e + 1,
        Err((k, x)) => o <= x <= b.len(),
    },
{ lemma_digits_end(b, o); }
pub proof fn lemma_sp_items_bounds(b: Seq<u8>, o: int, n: int)
    requires 0 <= o <= b.len(), 0 <= n,
    ensures
        match sp_items(b, o, n) { Ok(x) => o <= x <= b.len(), Err((k, x)) => o <= x <= b.len() },
        sp_items(b, o, n) is Ok ==> sp_args(b, o, n).len() == n,
    decreases n,
{
    lemma_sp_str_bounds(b, o);
    if n > 0 { if let Ok((s, e, o2)) = sp_str(b, o) { lemma_sp_items_bounds(b, o2, n - 1); } }
}

// ------------------------------------------------------------------ soundness: what is accepted is the text of a message
pub proof fn lemma_sub_cat(b: Seq<u8>, x: int, y: int, z: int)
    requires 0 <= x <= y <= z <= b.len(),
    ensures b.subrange(x, z) == b.subrange(x, y) + b.subrange(y, z),
{ assert(b.subrange(x, z) =~= b.subrange(x, y) + b.subrange(y, z)); }

pub proof fn lemma_sp_dec_sound(b: Seq<u8>, o: int)
    requires 0 <= o <= b.len(),
    ensures sp_dec(b, o) matches Ok((n, e)) ==> o < e <= b.len() && 0 <= n <= usize::MAX && b.subrange(o, e) == dec(n as nat),
{
    lemma_digits_end(b, o);
    if let Ok((n, e)) = sp_dec(b, o) { lemma_val_dec(b.subrange(o, e)); }
}
pub proof fn lemma_sp_str_sound(b: Seq<u8>, o: int)
    requires 0 <= o <= b.len(),
    ensures sp_str(b, o) matches Ok((s, e, o2)) ==> o < s <= e < o2 <= b.len() && b.subrange(o, o2) == netstr(b.subrange(s, e)),
{
    lemma_sp_str_bounds(b, o);
    lemma_sp_dec_sound(b, o);
    if let Ok((s, e, o2)) = sp_str(b, o) {
        assert(b.subrange(o, o2) =~= b.subrange(o, s - 1) + seq![58u8] + b.subrange(s, e) + seq![44u8]);
    }
}
pub proof fn lemma_sp_items_sound(b: Seq<u8>, o: int, n: int)
    requires 0 <= o <= b.len(), 0 <= n,
    ensures sp_items(b, o, n) matches Ok(x) ==> o <= x <= b.len() && b.subrange(o, x) == items_text(sp_args(b, o, n)),
    decreases n,
{
    lemma_sp_str_sound(b, o);
    lemma_sp_items_bounds(b, o, n);
    if n > 0 {
        if let Ok((s, e, o2)) = sp_str(b, o) {
            lemma_sp_items_sound(b, o2, n - 1);
            if let Ok(x) = sp_items(b, o, n) {
                lemma_sub_cat(b, o, o2, x);
                assert(sp_args(b, o, n).skip(1) =~= sp_args(b, o2, n - 1));
            }
        }
    } else { assert(b.subrange(o, o) =~= items_text(Seq::empty())); }
}
pub proof fn lemma_sp_head_sound(b: Seq<u8>)
    ensures sp_head(b) matches Ok((n, o)) ==> 0 <= n <= usize::MAX && 0 < o <= b.len() && b.take(o) == seq![123u8] + dec(n as nat) + seq![124u8],
{
    if b.len() > 0 { lemma_sp_dec_sound(b, 1); lemma_digits_end(b, 1); }
    if let Ok((n, o)) = sp_head(b) {
        assert(b.take(o) =~= seq![123u8] + b.subrange(1, o - 1) + seq![124u8]);
    }
}
/// C06: what is accepted is exactly a message, and the number of bytes is that of the message
pub proof fn lemma_parse_sound(b: Seq<u8>)
    ensures
        sp_parse(b) matches Ok(n) ==> 0 < n <= b.len() && b[n - 1] == 125 && b.take(n) == msg_text(sp_elems(b))
            && 1 <= sp_elems(b).len() <= usize::MAX && msgtype_ok(sp_elems(b)[0]),
{
    lemma_sp_head_sound(b);
    if let Ok(n) = sp_parse(b) {
        let (c, o) = sp_head(b)->Ok_0;
        lemma_sp_items_sound(b, o, c);
        lemma_sp_items_bounds(b, o, c);
        let (s, e, o2) = sp_str(b, o)->Ok_0;
        lemma_sp_str_bounds(b, o);
        lemma_sp_items_bounds(b, o2, c - 1);
        let x = sp_items(b, o, c)->Ok_0;
        assert(x == sp_items(b, o2, c - 1)->Ok_0);
        assert(b.take(n) =~= b.take(o) + b.subrange(o, x) + seq![125u8]);
        assert(sp_elems(b)[0] == b.subrange(s, e));
    }
}

// ------------------------------------------------------------------ completeness: every message is accepted, whatever follows
pub open spec fn has_at(b: Seq<u8>, o: int, t: Seq<u8>) -> bool { 0 <= o && o + t.len() <= b.len() && b.subrange(o, o + t.len()) == t }
pub proof fn lemma_has_split(b: Seq<u8>, o: int, t: Seq<u8>, u: Seq<u8>)
    ensures has_at(b, o, t + u) <==> has_at(b, o, t) && has_at(b, o + t.len(), u),
{
    if has_at(b, o, t + u) {
        assert(b.subrange(o, o + t.len()) =~= (t + u).take(t.len() as int));
        assert((t + u).take(t.len() as int) =~= t);
        assert(b.subrange(o + t.len(), o + t.len() + u.len()) =~= (t + u).skip(t.len() as int));
        assert((t + u).skip(t.len() as int) =~= u);
    }
    if has_at(b, o, t) && has_at(b, o + t.len(), u) {
        assert(b.subrange(o, o + (t + u).len()) =~= b.subrange(o, o + t.len()) + b.subrange(o + t.len(), o + t.len() + u.len()));
    }
}
pub proof fn lemma_has_one(b: Seq<u8>, o: int, c: u8)
    ensures has_at(b, o, seq![c]) <==> 0 <= o < b.len() && b[o] == c,
{
    if has_at(b, o, seq![c]) { assert(b.subrange(o, o + 1)[0] == b[o]); }
    if 0 <= o < b.len() && b[o] == c { assert(b.subrange(o, o + 1) =~= seq![c]); }
}
pub proof fn lemma_sp_dec_complete(b: Seq<u8>, o: int, n: int)
    requires 0 <= n <= usize::MAX, has_at(b, o, dec(n as nat)), o + dec(n as nat).len() < b.len(), !is_digit_b(b[o + dec(n as nat).len()]),
    ensures sp_dec(b, o) == Ok::<(int, int), (PKind, int)>((n, o + dec(n as nat).len())),
{
    let d = dec(n as nat);
    lemma_dec(n as nat);
    let e = o + d.len();
    assert forall|i: int| o <= i < e implies is_digit_b(#[trigger] b[i]) by { assert(b[i] == b.subrange(o, e)[i - o]); assert(is_digit_b(d[i - o])); }
    lemma_digits_end_is(b, o, e);
    assert(b[o] == d[0]);
}
pub proof fn lemma_sp_str_complete(b: Seq<u8>, o: int, s: Seq<u8>)
    requires has_at(b, o, netstr(s)), s.len() <= usize::MAX,
    ensures
        sp_str(b, o) matches Ok((x, y, o2)) && o2 == o + netstr(s).len() && b.subrange(x, y) == s && 0 <= x <= y < o2,
{
    let d = dec(s.len());
    lemma_has_split(b, o, d + seq![58u8] + s, seq![44u8]);
    lemma_has_split(b, o, d + seq![58u8], s);
    lemma_has_split(b, o, d, seq![58u8]);
    lemma_has_one(b, o + d.len(), 58);
    lemma_has_one(b, o + d.len() + 1 + s.len(), 44);
    lemma_sp_dec_complete(b, o, s.len() as int);
}
pub proof fn lemma_sp_items_complete(b: Seq<u8>, o: int, a: Seq<Seq<u8>>)
    requires has_at(b, o, items_text(a)), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).len() <= usize::MAX,
    ensures
        sp_items(b, o, a.len() as int) == Ok::<int, (PKind, int)>(o + items_text(a).len()),
        sp_args(b, o, a.len() as int) == a,
    decreases a.len(),
{
    if a.len() > 0 {
        lemma_has_split(b, o, netstr(a[0]), items_text(a.skip(1)));
        lemma_sp_str_complete(b, o, a[0]);
        let t = a.skip(1);
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).len() <= usize::MAX by { assert(t[i] == a[i + 1]); }
        lemma_sp_items_complete(b, o + netstr(a[0]).len(), t);
        assert(seq![a[0]] + t =~= a);
    } else { assert(sp_args(b, o, 0) =~= a); }
}
/// an element is no longer than the text that contains it
pub proof fn lemma_elem_len(a: Seq<Seq<u8>>, i: int)
    requires 0 <= i < a.len(),
    ensures a[i].len() <= items_text(a).len(),
    decreases a.len(),
{ if i > 0 { lemma_elem_len(a.skip(1), i - 1); assert(a.skip(1)[i - 1] == a[i]); } }
/// C06, C10: every message is accepted, with its elements, whatever follows it
pub proof fn lemma_parse_complete(b: Seq<u8>, a: Seq<Seq<u8>>)
    requires
        has_at(b, 0, msg_text(a)), 1 <= a.len() <= usize::MAX, msgtype_ok(a[0]), b.len() <= usize::MAX,
    ensures
        sp_parse(b) == Ok::<int, (PKind, int)>(msg_text(a).len() as int),
        sp_elems(b) == a,
{
    let d = dec(a.len());
    lemma_dec(a.len());
    let t = items_text(a);
    lemma_has_split(b, 0, seq![123u8] + d + seq![124u8] + t, seq![125u8]);
    lemma_has_split(b, 0, seq![123u8] + d + seq![124u8], t);
    lemma_has_split(b, 0, seq![123u8] + d, seq![124u8]);
    lemma_has_split(b, 0, seq![123u8], d);
    lemma_has_one(b, 0, 123);
    lemma_has_one(b, 1 + d.len() as int, 124);
    lemma_has_one(b, 2 + d.len() + t.len() as int, 125);
    lemma_sp_dec_complete(b, 1, a.len() as int);
    let o = 2 + d.len();
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).len() <= usize::MAX by { lemma_elem_len(a, i); }
    lemma_sp_items_complete(b, o as int, a);
    lemma_has_split(b, o as int, netstr(a[0]), items_text(a.skip(1)));
    lemma_sp_str_complete(b, o as int, a[0]);
}

// ------------------------------------------------------------------ C07: errors are decided by the bytes before them
pub proof fn lemma_ext_digits(b: Seq<u8>, c: Seq<u8>, o: int)
    requires 0 <= o <= b.len(), digits_end(b, o) < b.len(),
    ensures digits_end(b + c, o) == digits_end(b, o),
{
    lemma_digits_end(b, o);
    let e = digits_end(b, o);
    assert forall|i: int| o <= i < e implies is_digit_b(#[trigger] (b + c)[i]) by { assert((b + c)[i] == b[i]); }
    lemma_digits_end_is(b + c, o, e);
}
/// more digits do not make a number smaller
pub proof fn lemma_val_ge(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(), all_digits(s),
    ensures val(s.take(k)) <= val(s),
    decreases s.len() - k,
{
    if k < s.len() {
        lemma_val_ge(s, k + 1);
        assert(s.take(k + 1).drop_last() =~= s.take(k));
        assert(s.take(k + 1).last() == s[k]);
        assert(is_digit_b(s[k]));
    } else { assert(s.take(k) =~= s); }
}
pub proof fn lemma_digits_end_ext(b: Seq<u8>, c: Seq<u8>, o: int)
    requires 0 <= o <= b.len(),
    ensures digits_end(b + c, o) >= digits_end(b, o),
    decreases b.len() - o,
{
    lemma_digits_end(b, o);
    lemma_digits_end(b + c, o);
    if o < b.len() && is_digit_b(b[o]) { assert((b + c)[o] == b[o]); lemma_digits_end_ext(b, c, o + 1); }
}
pub proof fn lemma_ext_dec(b: Seq<u8>, c: Seq<u8>, o: int)
    requires 0 <= o <= b.len(),
    ensures match sp_dec(b, o) {
        Ok((n, e)) => e < b.len() ==> sp_dec(b + c, o) == sp_dec(b, o),
        Err((k, x)) => k != PKind::Eof ==> (sp_dec(b + c, o) matches Err((k2, y)) && k2 == k && y >= x),
    },
{
    let e = digits_end(b, o);
    let f = digits_end(b + c, o);
    lemma_digits_end(b, o);
    lemma_digits_end(b + c, o);
    lemma_digits_end_ext(b, c, o);
    if e < b.len() { lemma_ext_digits(b, c, o); }
    assert((b + c).subrange(o, e) =~= b.subrange(o, e));
    assert((b + c).subrange(o, f).take(e - o) =~= b.subrange(o, e));
    lemma_val_ge((b + c).subrange(o, f), e - o);
    if e - o == 1 {
        let d = b.subrange(o, e);
        assert(d.drop_last() =~= Seq::<u8>::empty());
        assert(is_digit_b(d[0]));
        assert(val(d) == 10 * val(d.drop_last()) + (d.last() - 48) as nat);
        assert(val(d) <= 9);
    }
    if o < b.len() { assert((b + c)[o] == b[o]); }
}
pub proof fn lemma_ext_str(b: Seq<u8>, c: Seq<u8>, o: int)
    requires 0 <= o <= b.len(),
    ensures match sp_str(b, o) {
        Ok((s, e, o2)) => sp_str(b + c, o) == sp_str(b, o) && (b + c).subrange(s, e) == b.subrange(s, e),
        Err((k, x)) => k != PKind::Eof ==> (sp_str(b + c, o) matches Err((k2, y)) && k2 == k && y >= x),
    },
{
    lemma_ext_dec(b, c, o);
    lemma_sp_dec_sound(b, o);
    lemma_sp_str_bounds(b, o);
    if let Ok((n, e)) = sp_dec(b, o) {
        if e < b.len() {
            assert((b + c)[e] == b[e]);
            if e + 1 + n < b.len() { assert((b + c)[e + 1 + n] == b[e + 1 + n]); }
        }
    }
    if let Ok((s, e, o2)) = sp_str(b, o) { assert((b + c).subrange(s, e) =~= b.subrange(s, e)); }
}
pub proof fn lemma_ext_items(b: Seq<u8>, c: Seq<u8>, o: int, n: int)
    requires 0 <= o <= b.len(), 0 <= n,
    ensures match sp_items(b, o, n) {
        Ok(x) => sp_items(b + c, o, n) == sp_items(b, o, n) && sp_args(b + c, o, n) == sp_args(b, o, n),
        Err((k, x)) => k != PKind::Eof ==> (sp_items(b + c, o, n) matches Err((k2, y)) && k2 == k && y >= x),
    },
    decreases n,
{
    lemma_ext_str(b, c, o);
    lemma_sp_str_bounds(b, o);
    if n > 0 { if let Ok((s, e, o2)) = sp_str(b, o) { lemma_ext_items(b, c, o2, n - 1); } }
}
pub proof fn lemma_ext_head(b: Seq<u8>, c: Seq<u8>)
    ensures match sp_head(b) {
        Ok((n, x)) => sp_head(b + c) == sp_head(b) && 0 < x <= b.len() && 0 <= n,
        Err((k, x)) => 0 <= x <= b.len() && (k != PKind::Eof ==> (sp_head(b + c) matches Err((k2, y)) && k2 == k && y >= x)),
    },
{
    lemma_sp_head_sound(b);
    if b.len() > 0 {
        assert((b + c)[0] == b[0]);
        lemma_ext_dec(b, c, 1);
        lemma_digits_end(b, 1);
        if let Ok((n, e)) = sp_dec(b, 1) { if e < b.len() { assert((b + c)[e] == b[e]); } }
    }
}
/// C07: the offset is in or at the end of the buffer; an error other than incompleteness, and an
/// accepted message, are not affected by bytes that follow
pub proof fn lemma_parse_ext(b: Seq<u8>, c: Seq<u8>)
    ensures
        match sp_parse(b) {
            Ok(n) => sp_parse(b + c) == sp_parse(b) && sp_elems(b + c) == sp_elems(b),
            Err((k, x)) => 0 <= x <= b.len() && (k != PKind::Eof ==> (sp_parse(b + c) matches Err((k2, y)) && k2 == k && y >= x)),
        },
{
    lemma_ext_head(b, c);
    if let Ok((n, o)) = sp_head(b) {
        lemma_ext_str(b, c, o);
        lemma_sp_str_bounds(b, o);
        if n > 0 {
            if let Ok((s, e, o2)) = sp_str(b, o) {
                lemma_sp_items_bounds(b, o2, n - 1);
                lemma_ext_items(b, c, o2, n - 1);
                lemma_ext_items(b, c, o, n);
                if let Ok(x) = sp_items(b, o2, n - 1) { if x < b.len() { assert((b + c)[x] == b[x]); } }
            }
        }
    }
}
/// C07: every proper prefix of a message is incomplete, and of nothing else is the end of the input reported
pub proof fn lemma_prefix_incomplete(a: Seq<Seq<u8>>, k: int)
    requires 1 <= a.len() <= usize::MAX, msgtype_ok(a[0]), 0 <= k < msg_text(a).len() <= usize::MAX,
    ensures sp_parse(msg_text(a).take(k)) matches Err((e, x)) && e == PKind::Eof,
{
    hide(sp_elems); hide(sp_items); hide(sp_str); hide(sp_char); hide(sp_dec); hide(items_text); hide(msgtype_ok); hide(scoped_ok); hide(dec);
    let m = msg_text(a);
    let p = m.take(k);
    assert(p + m.skip(k) =~= m);
    assert(m.subrange(0, m.len() as int) =~= m);
    lemma_parse_complete(m, a);
    lemma_parse_ext(p, m.skip(k));
    lemma_parse_sound(p);
}

// ------------------------------------------------------------------ formatting
/// messages are limited to 1024 bytes
pub open spec fn min_len(b: Seq<u8>) -> int { if b.len() <= 1024 { b.len() as int } else { 1024 } }
/// the text of a message up to and including its type
pub open spec fn msg_head(ty: Seq<u8>, n: int) -> Seq<u8> { seq![123u8] + dec((n + 1) as nat) + seq![124u8] + netstr(ty) }
/// the text of a message is its head, its arguments, and the closing brace
pub proof fn lemma_msg_text(a: Seq<Seq<u8>>)
    requires a.len() >= 1,
    ensures msg_text(a) == msg_head(a[0], a.len() - 1) + items_text(a.skip(1)) + seq![125u8],
{ assert(msg_text(a) =~= msg_head(a[0], a.len() - 1) + items_text(a.skip(1)) + seq![125u8]); }
/// ... for the numbers of arguments that typed messages have
pub proof fn lemma_msg2(a: Seq<Seq<u8>>)
    requires a.len() == 2,
    ensures msg_text(a) == (msg_head(a[0], 1) + netstr(a[1])) + seq![125u8],
        msg_text(a).len() == msg_head(a[0], 1).len() + netstr(a[1]).len() + 1,
{ lemma_msg_text(a); lemma_items2(a); }
pub proof fn lemma_msg3(a: Seq<Seq<u8>>)
    requires a.len() == 3,
    ensures msg_text(a) == ((msg_head(a[0], 2) + netstr(a[1])) + netstr(a[2])) + seq![125u8],
        msg_text(a).len() == msg_head(a[0], 2).len() + netstr(a[1]).len() + netstr(a[2]).len() + 1,
{ lemma_msg_text(a); lemma_items3(a); assert(msg_text(a) =~= ((msg_head(a[0], 2) + netstr(a[1])) + netstr(a[2])) + seq![125u8]); }
pub proof fn lemma_msg5(a: Seq<Seq<u8>>)
    requires a.len() == 5,
    ensures msg_text(a) == ((((msg_head(a[0], 4) + netstr(a[1])) + netstr(a[2])) + netstr(a[3])) + netstr(a[4])) + seq![125u8],
        msg_text(a).len() == msg_head(a[0], 4).len() + netstr(a[1]).len() + netstr(a[2]).len() + netstr(a[3]).len() + netstr(a[4]).len() + 1,
{ lemma_msg_text(a); lemma_items5(a); assert(msg_text(a) =~= ((((msg_head(a[0], 4) + netstr(a[1])) + netstr(a[2])) + netstr(a[3])) + netstr(a[4])) + seq![125u8]); }
pub proof fn lemma_items2(a: Seq<Seq<u8>>)
    requires a.len() == 2,
    ensures items_text(a.skip(1)) == netstr(a[1]),
{
    assert(a.skip(1).skip(1) =~= Seq::empty());
    reveal_with_fuel(items_text, 3);
    assert(items_text(a.skip(1)) =~= netstr(a[1]));
}
pub proof fn lemma_items3(a: Seq<Seq<u8>>)
    requires a.len() == 3,
    ensures items_text(a.skip(1)) == netstr(a[1]) + netstr(a[2]),
{
    lemma_items2(a.skip(1));
    assert(items_text(a.skip(1)) =~= netstr(a[1]) + netstr(a[2]));
}
pub proof fn lemma_items5(a: Seq<Seq<u8>>)
    requires a.len() == 5,
    ensures items_text(a.skip(1)) == netstr(a[1]) + netstr(a[2]) + netstr(a[3]) + netstr(a[4]),
{
    let b = a.skip(1);
    lemma_items3(b.skip(1));
    assert(b.skip(1) =~= a.skip(2));
    assert(items_text(b) == netstr(b[0]) + items_text(b.skip(1)));
    assert(items_text(b.skip(1)) == netstr(a[2]) + items_text(b.skip(1).skip(1)));
    assert(items_text(a.skip(1)) =~= netstr(a[1]) + netstr(a[2]) + netstr(a[3]) + netstr(a[4]));
}
} // verus!
