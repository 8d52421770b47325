// Printing: stand-ins for core::fmt, and the notation of messages with the proof that it is unambiguous.
use vstd::prelude::*;
use vstd::string::*;
use crate::vspec::*;
use crate::vident::*;
verus! {
// ------------------------------------------------------------ core::fmt (trusted: plain `{}`, without width or fill)
#[verifier::external_body] pub struct FmtError { x: u8 }
pub type FmtResult = core::result::Result<(), FmtError>;
/// core::fmt::Formatter: what has been printed, and whether the destination has failed
#[verifier::external_body] pub struct Formatter { x: u8 }
impl Formatter {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    pub uninterp spec fn broken(&self) -> bool;
    #[verifier::external_body] pub fn write_str(&mut self, s: &str) -> (r: FmtResult)
        requires !old(self).broken(),
        ensures r is Ok ==> final(self)@ == old(self)@ + s.spec_bytes() && !final(self).broken(), r is Err ==> final(self).broken(),
    { unimplemented!() }
    #[verifier::external_body] pub fn write_char(&mut self, c: char) -> (r: FmtResult)
        requires !old(self).broken(),
        ensures r is Ok ==> final(self)@ == old(self)@ + char_text(c) && !final(self).broken(), r is Err ==> final(self).broken(),
    { unimplemented!() }
}
pub uninterp spec fn long_char_text(c: char) -> Seq<u8>;
pub open spec fn char_text(c: char) -> Seq<u8> { if (c as int) < 128 { seq![c as u8] } else { long_char_text(c) } }
pub trait Display {
    spec fn shown(&self) -> Seq<u8>;
    spec fn printable(&self) -> bool;
    /// prints exactly the text, and fails only if the destination does
    fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
        requires self.printable(), !old(f).broken(),
        ensures r is Ok ==> final(f)@ == old(f)@ + self.shown() && !final(f).broken(), r is Err ==> final(f).broken();
}
impl Display for str {
    open spec fn shown(&self) -> Seq<u8> { self.spec_bytes() }
    open spec fn printable(&self) -> bool { true }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() }
}
impl Display for char {
    open spec fn shown(&self) -> Seq<u8> { char_text(*self) }
    open spec fn printable(&self) -> bool { true }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() }
}
impl Display for usize {
    open spec fn shown(&self) -> Seq<u8> { dec(*self as nat) }
    open spec fn printable(&self) -> bool { true }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() }
}
impl Display for u16 {
    open spec fn shown(&self) -> Seq<u8> { dec(*self as nat) }
    open spec fn printable(&self) -> bool { true }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() }
}
impl Display for u8 {
    open spec fn shown(&self) -> Seq<u8> { dec(*self as nat) }
    open spec fn printable(&self) -> bool { true }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() }
}
impl<'a, T: Display + ?Sized> Display for &'a T {
    open spec fn shown(&self) -> Seq<u8> { (**self).shown() }
    open spec fn printable(&self) -> bool { (**self).printable() }
    fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { (**self).fmt(f) }
}
// ------------------------------------------------------------ the notation
/// what is printed as it is
pub open spec fn is_plain(b: u8) -> bool { 65 <= b <= 90 || 97 <= b <= 122 || 48 <= b <= 57 || b == 46 || b == 95 || b == 45 }
pub open spec fn all_plain(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_plain(#[trigger] s[i]) }
pub open spec fn hex(n: u8) -> u8 { if n < 10 { (48 + n) as u8 } else { (87 + n) as u8 } }
/// a byte between quotes
pub open spec fn esc(b: u8) -> Seq<u8> {
    if b == 9 { seq![92u8, 116u8] } else if b == 13 { seq![92u8, 114u8] } else if b == 10 { seq![92u8, 110u8] }
    else if b == 39 || b == 34 || b == 92 { seq![92u8, b] }
    else if 32 <= b <= 126 { seq![b] }
    else { seq![92u8, 120u8, hex(b / 16), hex(b % 16)] }
}
pub open spec fn esc_all(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { esc_all(s.drop_last()) + esc(s.last()) } }
pub open spec fn arg_text(a: Seq<u8>) -> Seq<u8> { if a.len() > 0 && all_plain(a) { a } else { seq![34u8] + esc_all(a) + seq![34u8] } }
pub open spec fn args_text(l: Seq<Seq<u8>>) -> Seq<u8> decreases l.len() { if l.len() == 0 { Seq::empty() } else { seq![32u8] + arg_text(l[0]) + args_text(l.skip(1)) } }
pub open spec fn notation(ty: Seq<u8>, args: Seq<Seq<u8>>) -> Seq<u8> { seq![40u8] + ty + args_text(args) + seq![41u8] }

/// core::ascii::escape_default(b), collected (trusted)
#[verifier::external_body] pub fn escape_default(b: u8) -> (r: Vec<u8>) ensures r@ == esc(b) { unimplemented!() }
/// stands for s.iter().flat_map(|&b| core::ascii::escape_default(b)), collected
pub fn escaped(s: &[u8]) -> (r: Vec<u8>)
    ensures r@ == esc_all(s@), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] < 128, all_plain(s@) ==> r@ == s@,
{
    let mut r: Vec<u8> = Vec::new();
    let mut i: usize = 0;
    proof { assert(s@.take(0) =~= Seq::empty()); }
    while i < s.len()
        invariant i <= s@.len(), r@ == esc_all(s@.take(i as int)), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] < 128,
        decreases s@.len() - i,
    {
        let mut x = escape_default(s[i]);
        proof {
            assert(s@.take(i + 1).drop_last() =~= s@.take(i as int)); assert(s@.take(i + 1).last() == s@[i as int]);
            lemma_esc(s@[i as int]);
        }
        let ghost r0 = r@; let ghost x0 = x@;
        r.append(&mut x);
        proof { assert forall|k: int| 0 <= k < r@.len() implies #[trigger] r@[k] < 128 by { if k >= r0.len() { assert(r@[k] == x0[k - r0.len()]); } else { assert(r@[k] == r0[k]); } } }
        i = i + 1;
    }
    proof { assert(s@.take(s@.len() as int) =~= s@); if all_plain(s@) { lemma_plain(s@); } }
    r
}
/// stands for s.iter().any(f)
pub fn any_byte<F: Fn(u8) -> bool>(s: &[u8], f: F) -> (r: bool)
    requires forall|x: u8| #[trigger] call_requires(f, (x,)), forall|x: u8, b: bool| #[trigger] call_ensures(f, (x,), b) ==> b == !is_plain(x),
    ensures r == !all_plain(s@),
{
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(), forall|k: int| 0 <= k < i ==> is_plain(#[trigger] s@[k]),
            forall|x: u8| #[trigger] call_requires(f, (x,)), forall|x: u8, b: bool| #[trigger] call_ensures(f, (x,), b) ==> b == !is_plain(x),
        decreases s@.len() - i,
    {
        if f(s[i]) { assert(!is_plain(s@[i as int])); return true; }
        i = i + 1;
    }
    false
}
/// stands for s.iter().all(f)
pub fn all_bytes<F: Fn(u8) -> bool>(s: &[u8], f: F) -> (r: bool)
    requires forall|x: u8| #[trigger] call_requires(f, (x,)), forall|x: u8, b: bool| #[trigger] call_ensures(f, (x,), b) ==> b == is_plain(x),
    ensures r == all_plain(s@),
{
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(), forall|k: int| 0 <= k < i ==> is_plain(#[trigger] s@[k]),
            forall|x: u8| #[trigger] call_requires(f, (x,)), forall|x: u8, b: bool| #[trigger] call_ensures(f, (x,), b) ==> b == is_plain(x),
        decreases s@.len() - i,
    {
        if !f(s[i]) { assert(!is_plain(s@[i as int])); return false; }
        i = i + 1;
    }
    true
}
pub proof fn lemma_esc(b: u8)
    ensures 1 <= esc(b).len() <= 4, forall|i: int| 0 <= i < esc(b).len() ==> #[trigger] esc(b)[i] < 128, esc(b)[0] != 34, is_plain(b) ==> esc(b) == seq![b],
{}
pub proof fn lemma_plain(s: Seq<u8>)
    requires all_plain(s),
    ensures esc_all(s) == s,
    decreases s.len(),
{
    if s.len() > 0 {
        let p = s.drop_last();
        assert(all_plain(p)) by { assert forall|i: int| 0 <= i < p.len() implies is_plain(#[trigger] p[i]) by { assert(p[i] == s[i]); } }
        lemma_plain(p); lemma_esc(s.last()); assert(is_plain(s[s.len() - 1]));
        assert(p + seq![s.last()] =~= s);
    } else { assert(esc_all(s) =~= s); }
}
// ------------------------------------------------------------ messages that differ print differently
pub proof fn lemma_esc_head(s: Seq<u8>)
    requires s.len() > 0,
    ensures esc_all(s) == esc(s[0]) + esc_all(s.skip(1)),
    decreases s.len(),
{
    let p = s.drop_last();
    if p.len() > 0 {
        lemma_esc_head(p);
        assert(p.skip(1) =~= s.skip(1).drop_last());
        assert(s.skip(1).last() == s.last());
        assert(esc_all(s) =~= esc(s[0]) + esc_all(s.skip(1)));
    } else {
        assert(s.skip(1) =~= Seq::empty()); assert(p =~= Seq::empty()); assert(esc_all(p) =~= Seq::empty()); assert(esc_all(s.skip(1)) =~= Seq::empty());
        assert(esc_all(s) =~= esc(s[0]) + esc_all(s.skip(1)));
    }
}
proof fn lemma_esc_code(a: u8, x: Seq<u8>, b: u8, y: Seq<u8>)
    requires esc(a) + x == esc(b) + y,
    ensures a == b, x == y,
{
    let s = esc(a) + x; let t = esc(b) + y;
    lemma_esc(a); lemma_esc(b);
    assert(s[0] == esc(a)[0] && t[0] == esc(b)[0]);
    if s[0] == 92 {
        assert(esc(a).len() >= 2 && esc(b).len() >= 2);
        assert(s[1] == esc(a)[1] && t[1] == esc(b)[1]);
        if s[1] == 120 {
            assert(esc(a).len() == 4 && esc(b).len() == 4);
            assert(s[2] == esc(a)[2] && t[2] == esc(b)[2] && s[3] == esc(a)[3] && t[3] == esc(b)[3]);
        }
    }
    assert(a == b);
    let n = esc(a).len() as int;
    assert(s.skip(n) =~= x); assert(t.skip(n) =~= y);
}
proof fn lemma_quoted_code(a: Seq<u8>, x: Seq<u8>, b: Seq<u8>, y: Seq<u8>)
    requires esc_all(a) + seq![34u8] + x == esc_all(b) + seq![34u8] + y,
    ensures a == b, x == y,
    decreases a.len(),
{
    let s = esc_all(a) + seq![34u8] + x; let t = esc_all(b) + seq![34u8] + y;
    if a.len() == 0 || b.len() == 0 {
        if a.len() > 0 { lemma_esc_head(a); lemma_esc(a[0]); assert(s[0] == esc(a[0])[0]); assert(esc_all(b) =~= Seq::empty()); assert(t[0] == 34); assert(false); }
        if b.len() > 0 { lemma_esc_head(b); lemma_esc(b[0]); assert(t[0] == esc(b[0])[0]); assert(esc_all(a) =~= Seq::empty()); assert(s[0] == 34); assert(false); }
        assert(a =~= b);
        assert(esc_all(a) =~= Seq::empty());
        assert(s.skip(1) =~= x); assert(t.skip(1) =~= y);
    } else {
        lemma_esc_head(a); lemma_esc_head(b);
        let x1 = esc_all(a.skip(1)) + seq![34u8] + x; let y1 = esc_all(b.skip(1)) + seq![34u8] + y;
        assert(s =~= esc(a[0]) + x1); assert(t =~= esc(b[0]) + y1);
        lemma_esc_code(a[0], x1, b[0], y1);
        lemma_quoted_code(a.skip(1), x, b.skip(1), y);
        assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1));
    }
}
/// plain text ends where something else begins
proof fn lemma_plain_code(a: Seq<u8>, x: Seq<u8>, b: Seq<u8>, y: Seq<u8>)
    requires all_plain(a), all_plain(b), a + x == b + y, x.len() > 0, y.len() > 0, !is_plain(x[0]), !is_plain(y[0]),
    ensures a == b, x == y,
{
    let s = a + x; let t = b + y;
    if a.len() < b.len() { assert(s[a.len() as int] == x[0]); assert(t[a.len() as int] == b[a.len() as int]); assert(false); }
    if a.len() > b.len() { assert(t[b.len() as int] == y[0]); assert(s[b.len() as int] == a[b.len() as int]); assert(false); }
    assert(a =~= s.take(a.len() as int)); assert(b =~= t.take(a.len() as int));
    assert(s.skip(a.len() as int) =~= x); assert(t.skip(a.len() as int) =~= y);
}
proof fn lemma_args_head(l: Seq<Seq<u8>>)
    ensures l.len() == 0 ==> (args_text(l) + seq![41u8]) == seq![41u8],
        l.len() > 0 ==> (args_text(l) + seq![41u8]) == seq![32u8] + arg_text(l[0]) + (args_text(l.skip(1)) + seq![41u8]),
        (args_text(l) + seq![41u8]).len() > 0, !is_plain((args_text(l) + seq![41u8])[0]),
{
    assert(args_text(l) + seq![41u8] =~= if l.len() == 0 { seq![41u8] } else { seq![32u8] + arg_text(l[0]) + (args_text(l.skip(1)) + seq![41u8]) });
}
proof fn lemma_arg_code(p: Seq<u8>, x: Seq<u8>, q: Seq<u8>, y: Seq<u8>)
    requires arg_text(p) + x == arg_text(q) + y, x.len() > 0, y.len() > 0, !is_plain(x[0]), !is_plain(y[0]),
    ensures p == q, x == y,
{
    let s = arg_text(p) + x; let t = arg_text(q) + y;
    let pp = p.len() > 0 && all_plain(p); let qp = q.len() > 0 && all_plain(q);
    if pp && qp { lemma_plain_code(p, x, q, y); }
    else if pp { assert(s[0] == p[0]); assert(is_plain(p[0])); assert(t[0] == 34); assert(false); }
    else if qp { assert(t[0] == q[0]); assert(is_plain(q[0])); assert(s[0] == 34); assert(false); }
    else {
        assert(s.skip(1) =~= esc_all(p) + seq![34u8] + x); assert(t.skip(1) =~= esc_all(q) + seq![34u8] + y);
        lemma_quoted_code(p, x, q, y);
    }
}
proof fn lemma_args_code(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
    requires args_text(a) + seq![41u8] == args_text(b) + seq![41u8],
    ensures a == b,
    decreases a.len(),
{
    let s = args_text(a) + seq![41u8]; let t = args_text(b) + seq![41u8];
    lemma_args_head(a); lemma_args_head(b);
    if a.len() == 0 || b.len() == 0 {
        if a.len() > 0 { assert(s[0] == 32 && t[0] == 41); assert(false); }
        if b.len() > 0 { assert(t[0] == 32 && s[0] == 41); assert(false); }
        assert(a =~= b);
    } else {
        let x = args_text(a.skip(1)) + seq![41u8]; let y = args_text(b.skip(1)) + seq![41u8];
        lemma_args_head(a.skip(1)); lemma_args_head(b.skip(1));
        let (p, q) = (a[0], b[0]);
        assert(s.skip(1) =~= arg_text(p) + x); assert(t.skip(1) =~= arg_text(q) + y);
        lemma_arg_code(p, x, q, y);
        lemma_args_code(a.skip(1), b.skip(1));
        assert(a =~= seq![p] + a.skip(1)); assert(b =~= seq![q] + b.skip(1));
    }
}
/// at the start, and after each argument
pub proof fn lemma_tail(g: Seq<u8>, f: Seq<u8>, ty: Seq<u8>, l: Seq<Seq<u8>>)
    requires g == f + seq![40u8] + ty,
    ensures g + (args_text(l) + seq![41u8]) == f + notation(ty, l),
{ assert(g + (args_text(l) + seq![41u8]) =~= f + notation(ty, l)); }
pub proof fn lemma_args_step(g: Seq<u8>, l: Seq<Seq<u8>>)
    ensures l.len() == 0 ==> g + (args_text(l) + seq![41u8]) == g + seq![41u8],
        l.len() > 0 && l[0].len() > 0 && all_plain(l[0]) ==> g + (args_text(l) + seq![41u8]) == g + seq![32u8] + l[0] + (args_text(l.skip(1)) + seq![41u8]),
        l.len() > 0 && !(l[0].len() > 0 && all_plain(l[0])) ==> g + (args_text(l) + seq![41u8]) == g + seq![32u8, 34u8] + esc_all(l[0]) + seq![34u8] + (args_text(l.skip(1)) + seq![41u8]),
{
    let t = args_text(l) + seq![41u8];
    if l.len() == 0 { assert(t =~= seq![41u8]); }
    else if l[0].len() > 0 && all_plain(l[0]) { assert(g + t =~= g + seq![32u8] + l[0] + (args_text(l.skip(1)) + seq![41u8])); }
    else { assert(g + t =~= g + seq![32u8, 34u8] + esc_all(l[0]) + seq![34u8] + (args_text(l.skip(1)) + seq![41u8])); }
}
pub proof fn lemma_type_plain(t: Seq<u8>)
    requires msgtype_ok(t),
    ensures all_plain(t),
{
    if scoped_ok(t) {
        let d = choose|d: int| scoped_is(t, d);
        let m = t.take(d); let n = t.skip(d + 1);
        let (k, v) = choose|k: int, v: int| module_is(m, k, v);
        lemma_dec(v as nat);
        assert forall|i: int| 0 <= i < t.len() implies is_plain(#[trigger] t[i]) by {
            if i < d {
                assert(t[i] == m[i]);
                if i < k { assert(m[i] == m.take(k)[i]); } else { assert(m[i] == m.skip(k)[i - k]); assert(is_digit_b(m.skip(k)[i - k])); }
            } else if i > d { assert(t[i] == n[i - d - 1]); }
        }
    }
}
/// messages that differ print differently
pub proof fn lemma_notation_unambiguous(ty1: Seq<u8>, a: Seq<Seq<u8>>, ty2: Seq<u8>, b: Seq<Seq<u8>>)
    requires msgtype_ok(ty1), msgtype_ok(ty2), notation(ty1, a) == notation(ty2, b),
    ensures ty1 == ty2, a == b,
{
    let x = args_text(a) + seq![41u8]; let y = args_text(b) + seq![41u8];
    lemma_type_plain(ty1); lemma_type_plain(ty2); lemma_args_head(a); lemma_args_head(b);
    assert(notation(ty1, a).skip(1) =~= ty1 + x); assert(notation(ty2, b).skip(1) =~= ty2 + y);
    lemma_plain_code(ty1, x, ty2, y);
    lemma_args_code(a, b);
}
/// stand for s.iter().take(n) and s.iter().skip(n)
pub fn taken(s: &[u8], n: usize) -> (r: &[u8])
    ensures r@ == s@.take(if n <= s@.len() { n as int } else { s@.len() as int }),
{ if n < s.len() { vstd::slice::slice_subrange(s, 0, n) } else { assert(s@.take(s@.len() as int) =~= s@); s } }
pub fn skipped(s: &[u8], n: usize) -> (r: &[u8])
    ensures r@ == s@.skip(if n <= s@.len() { n as int } else { s@.len() as int }),
{ let k = if n < s.len() { n } else { s.len() }; vstd::slice::slice_subrange(s, k, s.len()) }
} // verus!
