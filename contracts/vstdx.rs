// TRUSTED: contracts on the Rust standard library that vstd does not provide. Every item of this
// file is an assumption; the bounded harness compares the executable ones with the real library.
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use crate::vspec::*;
verus! {

// ---- comparisons of characters
pub open spec fn ord_of(a: int, b: int) -> core::cmp::Ordering {
    if a < b { core::cmp::Ordering::Less } else if a > b { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal }
}
pub broadcast axiom fn axiom_char_obeys()
    ensures #[trigger] <char as PartialOrdSpec<char>>::obeys_partial_cmp_spec();
pub broadcast axiom fn axiom_char_cmp(a: char, b: char)
    ensures #[trigger] <char as PartialOrdSpec<char>>::partial_cmp_spec(&a, &b) == Some(ord_of(a as int, b as int));

// ---- no Rust object is larger than isize::MAX bytes
pub broadcast axiom fn axiom_slice_len(s: &[u8])
    ensures (#[trigger] s@).len() <= isize::MAX;
pub broadcast axiom fn axiom_str_len(s: &str)
    ensures (#[trigger] s.spec_bytes()).len() <= isize::MAX;

pub assume_specification<T>[ Option::<T>::replace ](o: &mut Option<T>, v: T) -> (r: Option<T>) ensures r == *old(o), *final(o) == Some(v);
pub assume_specification[ u8::max_value ]() -> (r: u8) ensures r == u8::MAX;
pub assume_specification[ u8::is_ascii_alphanumeric ](c: &u8) -> (r: bool) ensures r == (48 <= *c <= 57 || 65 <= *c <= 90 || 97 <= *c <= 122);
pub assume_specification[ u8::is_ascii_alphabetic ](c: &u8) -> (r: bool) ensures r == (65 <= *c <= 90 || 97 <= *c <= 122);
pub assume_specification[ u8::is_ascii_digit ](c: &u8) -> (r: bool) ensures r == (48 <= *c <= 57);
pub assume_specification[ u8::is_ascii_uppercase ](c: &u8) -> (r: bool) ensures r == (65 <= *c <= 90);
pub assume_specification[ u8::is_ascii_lowercase ](c: &u8) -> (r: bool) ensures r == (97 <= *c <= 122);
pub assume_specification[ u16::max_value ]() -> (r: u16) ensures r == u16::MAX;
pub assume_specification[ u32::max_value ]() -> (r: u32) ensures r == u32::MAX;
pub assume_specification[ u64::max_value ]() -> (r: u64) ensures r == u64::MAX;
pub assume_specification[ u128::max_value ]() -> (r: u128) ensures r == u128::MAX;
pub assume_specification[ usize::max_value ]() -> (r: usize) ensures r == usize::MAX;
pub assume_specification[ usize::overflowing_add ](a: usize, b: usize) -> (r: (usize, bool))
    ensures r.1 == (a + b > usize::MAX), !r.1 ==> r.0 == a + b, r.1 ==> r.0 == a + b - usize::MAX - 1;
pub assume_specification<T, E>[ core::result::Result::<T, E>::unwrap_or ](a: core::result::Result<T, E>, d: T) -> (r: T)
    ensures r == (match a { Ok(v) => v, Err(_) => d });
// ---- core::str
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(core::str::Utf8Error);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExCharIndices<'a>(core::str::CharIndices<'a>);

pub assume_specification<'a>[ core::str::from_utf8 ](v: &'a [u8]) -> (r: core::result::Result<&'a str, core::str::Utf8Error>)
    ensures
        r is Ok <==> valid_utf8(v@),
        r is Ok ==> r->Ok_0.spec_bytes() == v@,
;

pub assume_specification<'a>[ core::str::from_utf8_unchecked ](v: &'a [u8]) -> (r: &'a str)
    requires valid_utf8(v@),
    ensures r.spec_bytes() == v@,
;

/// the characters still to come, and the byte index of the next one
pub uninterp spec fn ci_rest(it: core::str::CharIndices) -> Seq<char>;
pub uninterp spec fn ci_index(it: core::str::CharIndices) -> nat;

pub assume_specification<'a>[ str::char_indices ](s: &'a str) -> (r: core::str::CharIndices<'a>)
    ensures ci_rest(r) == s@, ci_index(r) == 0,
;

pub assume_specification<'a>[ <core::str::CharIndices<'a> as Iterator>::next ](it: &mut core::str::CharIndices<'a>) -> (r: Option<(usize, char)>)
    ensures
        ci_rest(*old(it)).len() == 0 ==> r is None && *final(it) == *old(it),
        ci_rest(*old(it)).len() > 0 ==> r == Some((ci_index(*old(it)) as usize, ci_rest(*old(it))[0]))
            && ci_index(*old(it)) <= usize::MAX
            && ci_rest(*final(it)) == ci_rest(*old(it)).skip(1)
            && ci_index(*final(it)) == ci_index(*old(it)) + encode_scalar(ci_rest(*old(it))[0] as u32).len(),
;

#[verifier::external_trait_specification]
pub trait ExPattern: Sized {
    type ExternalTraitSpecificationFor: core::str::pattern::Pattern;
}
pub uninterp spec fn find_spec<P>(s: Seq<u8>, p: P) -> Option<usize>;
pub assume_specification<P: core::str::pattern::Pattern>[ str::find::<P> ](s: &str, p: P) -> (r: Option<usize>)
    ensures r == find_spec::<P>(s.spec_bytes(), p),
;
/// an ASCII character is found at the first byte that equals it
pub broadcast axiom fn axiom_find_ascii(s: Seq<u8>, c: char)
    requires (c as int) < 128, valid_utf8(s),
    ensures
        match #[trigger] find_spec::<char>(s, c) {
            Some(i) => i < s.len() && s[i as int] == c as u8 && forall|j: int| 0 <= j < i ==> s[j] != c as u8,
            None => forall|j: int| 0 <= j < s.len() ==> s[j] != c as u8,
        },
;

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(core::num::ParseIntError);
#[verifier::external_trait_specification]
pub trait ExFromStr: Sized {
    type ExternalTraitSpecificationFor: core::str::FromStr;
    type Err;
    fn from_str(s: &str) -> Result<Self, Self::Err>;
}
pub uninterp spec fn parse_spec<F>(s: Seq<u8>) -> Option<F>;
pub assume_specification<F: core::str::FromStr>[ str::parse::<F> ](s: &str) -> (r: Result<F, <F as core::str::FromStr>::Err>)
    ensures
        r is Ok <==> parse_spec::<F>(s.spec_bytes()) is Some,
        r is Ok ==> r->Ok_0 == parse_spec::<F>(s.spec_bytes())->0,
;
/// core's integer parser for radix 10: an optional sign, then digits, leading zeroes allowed, in range
pub open spec fn std_int_parse(s: Seq<u8>, lo: int, hi: int) -> Option<int> {
    let neg = s.len() > 0 && s[0] == 45 && lo < 0;
    let d = if s.len() > 0 && (s[0] == 43 || neg) { s.skip(1) } else { s };
    if d.len() > 0 && all_digits(d) {
        let v = if neg { -(val(d) as int) } else { val(d) as int };
        if lo <= v <= hi { Some(v) } else { None }
    } else { None }
}
pub broadcast axiom fn axiom_parse_i8(s: Seq<u8>)
    ensures (#[trigger] parse_spec::<i8>(s)) == (match std_int_parse(s, i8::MIN as int, i8::MAX as int) { Some(v) => Some(v as i8), None => None });
pub broadcast axiom fn axiom_parse_u8(s: Seq<u8>)
    ensures (#[trigger] parse_spec::<u8>(s)) == (match std_int_parse(s, u8::MIN as int, u8::MAX as int) { Some(v) => Some(v as u8), None => None });
pub broadcast axiom fn axiom_parse_i16(s: Seq<u8>)
    ensures (#[trigger] parse_spec::<i16>(s)) == (match std_int_parse(s, i16::MIN as int, i16::MAX as int) { Some(v) => Some(v as i16), None => None });
pub broadcast axiom fn axiom_parse_u16(s: Seq<u8>)
    ensures (#[trigger] parse_spec::<u16>(s)) == (match std_int_parse(s, u16::MIN as int, u16::MAX as int) { Some(v) => Some(v as u16), None => None });
pub broadcast axiom fn axiom_parse_i32(s: Seq<u8>)
    ensures (#[trigger] parse_spec::<i32>(s)) == (match std_int_parse(s, i32::MIN as int, i32::MAX as int) { Some(v) => Some(v as i32), None => None });
pub broadcast axiom fn axiom_parse_u32(s: Seq<u8>)
    ensures (#[trigger] parse_spec::<u32>(s)) == (match std_int_parse(s, u32::MIN as int, u32::MAX as int) { Some(v) => Some(v as u32), None => None });
pub broadcast axiom fn axiom_parse_i64(s: Seq<u8>)
    ensures (#[trigger] parse_spec::<i64>(s)) == (match std_int_parse(s, i64::MIN as int, i64::MAX as int) { Some(v) => Some(v as i64), None => None });
pub broadcast axiom fn axiom_parse_u64(s: Seq<u8>)
    ensures (#[trigger] parse_spec::<u64>(s)) == (match std_int_parse(s, u64::MIN as int, u64::MAX as int) { Some(v) => Some(v as u64), None => None });
pub broadcast axiom fn axiom_parse_i128(s: Seq<u8>)
    ensures (#[trigger] parse_spec::<i128>(s)) == (match std_int_parse(s, i128::MIN as int, i128::MAX as int) { Some(v) => Some(v as i128), None => None });
pub broadcast axiom fn axiom_parse_u128(s: Seq<u8>)
    ensures (#[trigger] parse_spec::<u128>(s)) == (match std_int_parse(s, u128::MIN as int, u128::MAX as int) { Some(v) => Some(v as u128), None => None });
pub broadcast axiom fn axiom_parse_isize(s: Seq<u8>)
    ensures (#[trigger] parse_spec::<isize>(s)) == (match std_int_parse(s, isize::MIN as int, isize::MAX as int) { Some(v) => Some(v as isize), None => None });
pub broadcast axiom fn axiom_parse_usize(s: Seq<u8>)
    ensures (#[trigger] parse_spec::<usize>(s)) == (match std_int_parse(s, usize::MIN as int, usize::MAX as int) { Some(v) => Some(v as usize), None => None });

// ---- indexing a str with a range is what core's SliceIndex<str> does (vstd specifies that one)
pub assume_specification<I: core::slice::SliceIndex<str>>[ <str as core::ops::Index<I>>::index ](s: &str, i: I) -> (r: &<I as core::slice::SliceIndex<str>>::Output)
    ensures call_ensures(<I as core::slice::SliceIndex<str>>::index, (i, s), r);
// ---- String: AsRef<str>
pub assume_specification[ <String as AsRef<str>>::as_ref ](s: &String) -> (r: &str) ensures r@ == s@;
// ---- String::from(&str) copies the text
pub broadcast axiom fn axiom_string_from_obeys<'a>()
    ensures #[trigger] <String as FromSpec<&'a str>>::obeys_from_spec();
pub broadcast axiom fn axiom_string_from<'a>(s: &'a str)
    ensures (#[trigger] <String as FromSpec<&'a str>>::from_spec(s))@ == s@;

// ---- further functions that the present tree does not use, so that a change may use them
pub assume_specification[ u8::is_ascii ](c: &u8) -> (r: bool) ensures r == (*c < 128);
pub assume_specification[ char::is_ascii ](c: &char) -> (r: bool) ensures r == ((*c as u32) < 128);
pub assume_specification[ u8::is_ascii_graphic ](c: &u8) -> (r: bool) ensures r == (33 <= *c <= 126);
pub assume_specification[ char::is_ascii_graphic ](c: &char) -> (r: bool) ensures r == (33 <= (*c as u32) <= 126);
pub assume_specification[ u8::is_ascii_punctuation ](c: &u8) -> (r: bool) ensures r == (33 <= *c <= 47 || 58 <= *c <= 64 || 91 <= *c <= 96 || 123 <= *c <= 126);
pub assume_specification[ char::is_ascii_punctuation ](c: &char) -> (r: bool) ensures r == (33 <= (*c as u32) <= 47 || 58 <= (*c as u32) <= 64 || 91 <= (*c as u32) <= 96 || 123 <= (*c as u32) <= 126);
pub assume_specification[ u8::is_ascii_control ](c: &u8) -> (r: bool) ensures r == (*c < 32 || *c == 127);
pub assume_specification[ char::is_ascii_control ](c: &char) -> (r: bool) ensures r == ((*c as u32) < 32 || (*c as u32) == 127);
pub assume_specification[ u8::is_ascii_hexdigit ](c: &u8) -> (r: bool) ensures r == (48 <= *c <= 57 || 65 <= *c <= 70 || 97 <= *c <= 102);
pub assume_specification[ char::is_ascii_hexdigit ](c: &char) -> (r: bool) ensures r == (48 <= (*c as u32) <= 57 || 65 <= (*c as u32) <= 70 || 97 <= (*c as u32) <= 102);
pub assume_specification[ u8::is_ascii_whitespace ](c: &u8) -> (r: bool) ensures r == (*c == 32 || *c == 9 || *c == 10 || *c == 12 || *c == 13);
pub assume_specification[ char::is_ascii_whitespace ](c: &char) -> (r: bool) ensures r == ((*c as u32) == 32 || (*c as u32) == 9 || (*c as u32) == 10 || (*c as u32) == 12 || (*c as u32) == 13);
pub assume_specification[ char::is_ascii_alphanumeric ](c: &char) -> (r: bool) ensures r == (48 <= (*c as u32) <= 57 || 65 <= (*c as u32) <= 90 || 97 <= (*c as u32) <= 122);
pub assume_specification[ char::is_ascii_alphabetic ](c: &char) -> (r: bool) ensures r == (65 <= (*c as u32) <= 90 || 97 <= (*c as u32) <= 122);
pub assume_specification[ char::is_ascii_digit ](c: &char) -> (r: bool) ensures r == (48 <= (*c as u32) <= 57);
pub assume_specification[ char::is_ascii_uppercase ](c: &char) -> (r: bool) ensures r == (65 <= (*c as u32) <= 90);
pub assume_specification[ char::is_ascii_lowercase ](c: &char) -> (r: bool) ensures r == (97 <= (*c as u32) <= 122);
pub open spec fn lower(c: u8) -> u8 { if 65 <= c <= 90 { (c + 32) as u8 } else { c } }
pub open spec fn upper(c: u8) -> u8 { if 97 <= c <= 122 { (c - 32) as u8 } else { c } }
pub open spec fn same_ignoring_case(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> lower(#[trigger] a[i]) == lower(b[i]) }
pub assume_specification[ u8::to_ascii_lowercase ](c: &u8) -> (r: u8) ensures r == lower(*c);
pub assume_specification[ u8::to_ascii_uppercase ](c: &u8) -> (r: u8) ensures r == upper(*c);
pub assume_specification[ u8::eq_ignore_ascii_case ](c: &u8, d: &u8) -> (r: bool) ensures r == (lower(*c) == lower(*d));
pub assume_specification[ <[u8]>::eq_ignore_ascii_case ](a: &[u8], b: &[u8]) -> (r: bool) ensures r == same_ignoring_case(a@, b@);
pub assume_specification[ str::eq_ignore_ascii_case ](a: &str, b: &str) -> (r: bool) ensures r == same_ignoring_case(a.spec_bytes(), b.spec_bytes());
pub assume_specification[ <[u8]>::is_ascii ](a: &[u8]) -> (r: bool) ensures r == forall|i: int| 0 <= i < a@.len() ==> #[trigger] a@[i] < 128;
pub assume_specification[ char::is_digit ](c: char, radix: u32) -> (r: bool) requires 2 <= radix <= 36 ensures radix == 10 ==> r == (48 <= c as u32 <= 57);
pub assume_specification[ char::to_digit ](c: char, radix: u32) -> (r: Option<u32>) requires 2 <= radix <= 36 ensures radix == 10 ==> r == (if 48 <= c as u32 <= 57 { Some((c as u32 - 48) as u32) } else { None });
pub assume_specification[ char::is_alphanumeric ](c: char) -> (r: bool) ensures (c as u32) < 128 ==> r == (48 <= c as u32 <= 57 || 65 <= c as u32 <= 90 || 97 <= c as u32 <= 122);
pub assume_specification[ char::is_alphabetic ](c: char) -> (r: bool) ensures (c as u32) < 128 ==> r == (65 <= c as u32 <= 90 || 97 <= c as u32 <= 122);
pub assume_specification[ char::is_numeric ](c: char) -> (r: bool) ensures (c as u32) < 128 ==> r == (48 <= c as u32 <= 57);
pub assume_specification[ i8::is_negative ](a: i8) -> (r: bool) ensures r == (a < 0);
pub assume_specification[ i8::unsigned_abs ](a: i8) -> (r: u8) ensures r as int == (if a < 0 { -(a as int) } else { a as int });
pub assume_specification[ i8::wrapping_neg ](a: i8) -> (r: i8) ensures r as int == (if a == i8::MIN { a as int } else { -(a as int) });
pub assume_specification[ i8::wrapping_abs ](a: i8) -> (r: i8) ensures r as int == (if a < 0 && a != i8::MIN { -(a as int) } else { a as int });
pub assume_specification[ i8::abs ](a: i8) -> (r: i8) requires a != i8::MIN ensures r as int == (if a < 0 { -(a as int) } else { a as int });
pub assume_specification[ i8::checked_neg ](a: i8) -> (r: Option<i8>) ensures r == (if a == i8::MIN { None::<i8> } else { Some((-a) as i8) });
pub assume_specification[ i8::checked_abs ](a: i8) -> (r: Option<i8>) ensures r == (if a == i8::MIN { None::<i8> } else if a < 0 { Some((-a) as i8) } else { Some(a) });
pub assume_specification[ i16::is_negative ](a: i16) -> (r: bool) ensures r == (a < 0);
pub assume_specification[ i16::unsigned_abs ](a: i16) -> (r: u16) ensures r as int == (if a < 0 { -(a as int) } else { a as int });
pub assume_specification[ i16::wrapping_neg ](a: i16) -> (r: i16) ensures r as int == (if a == i16::MIN { a as int } else { -(a as int) });
pub assume_specification[ i16::wrapping_abs ](a: i16) -> (r: i16) ensures r as int == (if a < 0 && a != i16::MIN { -(a as int) } else { a as int });
pub assume_specification[ i16::abs ](a: i16) -> (r: i16) requires a != i16::MIN ensures r as int == (if a < 0 { -(a as int) } else { a as int });
pub assume_specification[ i16::checked_neg ](a: i16) -> (r: Option<i16>) ensures r == (if a == i16::MIN { None::<i16> } else { Some((-a) as i16) });
pub assume_specification[ i16::checked_abs ](a: i16) -> (r: Option<i16>) ensures r == (if a == i16::MIN { None::<i16> } else if a < 0 { Some((-a) as i16) } else { Some(a) });
pub assume_specification[ i32::is_negative ](a: i32) -> (r: bool) ensures r == (a < 0);
pub assume_specification[ i32::unsigned_abs ](a: i32) -> (r: u32) ensures r as int == (if a < 0 { -(a as int) } else { a as int });
pub assume_specification[ i32::wrapping_neg ](a: i32) -> (r: i32) ensures r as int == (if a == i32::MIN { a as int } else { -(a as int) });
pub assume_specification[ i32::wrapping_abs ](a: i32) -> (r: i32) ensures r as int == (if a < 0 && a != i32::MIN { -(a as int) } else { a as int });
pub assume_specification[ i32::abs ](a: i32) -> (r: i32) requires a != i32::MIN ensures r as int == (if a < 0 { -(a as int) } else { a as int });
pub assume_specification[ i32::checked_neg ](a: i32) -> (r: Option<i32>) ensures r == (if a == i32::MIN { None::<i32> } else { Some((-a) as i32) });
pub assume_specification[ i32::checked_abs ](a: i32) -> (r: Option<i32>) ensures r == (if a == i32::MIN { None::<i32> } else if a < 0 { Some((-a) as i32) } else { Some(a) });
pub assume_specification[ i64::is_negative ](a: i64) -> (r: bool) ensures r == (a < 0);
pub assume_specification[ i64::unsigned_abs ](a: i64) -> (r: u64) ensures r as int == (if a < 0 { -(a as int) } else { a as int });
pub assume_specification[ i64::wrapping_neg ](a: i64) -> (r: i64) ensures r as int == (if a == i64::MIN { a as int } else { -(a as int) });
pub assume_specification[ i64::wrapping_abs ](a: i64) -> (r: i64) ensures r as int == (if a < 0 && a != i64::MIN { -(a as int) } else { a as int });
pub assume_specification[ i64::abs ](a: i64) -> (r: i64) requires a != i64::MIN ensures r as int == (if a < 0 { -(a as int) } else { a as int });
pub assume_specification[ i64::checked_neg ](a: i64) -> (r: Option<i64>) ensures r == (if a == i64::MIN { None::<i64> } else { Some((-a) as i64) });
pub assume_specification[ i64::checked_abs ](a: i64) -> (r: Option<i64>) ensures r == (if a == i64::MIN { None::<i64> } else if a < 0 { Some((-a) as i64) } else { Some(a) });
pub assume_specification[ i128::is_negative ](a: i128) -> (r: bool) ensures r == (a < 0);
pub assume_specification[ i128::unsigned_abs ](a: i128) -> (r: u128) ensures r as int == (if a < 0 { -(a as int) } else { a as int });
pub assume_specification[ i128::wrapping_neg ](a: i128) -> (r: i128) ensures r as int == (if a == i128::MIN { a as int } else { -(a as int) });
pub assume_specification[ i128::wrapping_abs ](a: i128) -> (r: i128) ensures r as int == (if a < 0 && a != i128::MIN { -(a as int) } else { a as int });
pub assume_specification[ i128::abs ](a: i128) -> (r: i128) requires a != i128::MIN ensures r as int == (if a < 0 { -(a as int) } else { a as int });
pub assume_specification[ i128::checked_neg ](a: i128) -> (r: Option<i128>) ensures r == (if a == i128::MIN { None::<i128> } else { Some((-a) as i128) });
pub assume_specification[ i128::checked_abs ](a: i128) -> (r: Option<i128>) ensures r == (if a == i128::MIN { None::<i128> } else if a < 0 { Some((-a) as i128) } else { Some(a) });
pub assume_specification[ isize::is_negative ](a: isize) -> (r: bool) ensures r == (a < 0);
pub assume_specification[ isize::unsigned_abs ](a: isize) -> (r: usize) ensures r as int == (if a < 0 { -(a as int) } else { a as int });
pub assume_specification[ isize::wrapping_neg ](a: isize) -> (r: isize) ensures r as int == (if a == isize::MIN { a as int } else { -(a as int) });
pub assume_specification[ isize::wrapping_abs ](a: isize) -> (r: isize) ensures r as int == (if a < 0 && a != isize::MIN { -(a as int) } else { a as int });
pub assume_specification[ isize::abs ](a: isize) -> (r: isize) requires a != isize::MIN ensures r as int == (if a < 0 { -(a as int) } else { a as int });
pub assume_specification[ isize::checked_neg ](a: isize) -> (r: Option<isize>) ensures r == (if a == isize::MIN { None::<isize> } else { Some((-a) as isize) });
pub assume_specification[ isize::checked_abs ](a: isize) -> (r: Option<isize>) ensures r == (if a == isize::MIN { None::<isize> } else if a < 0 { Some((-a) as isize) } else { Some(a) });
pub assume_specification<T>[ Option::<T>::or ](o: Option<T>, p: Option<T>) -> (r: Option<T>) ensures r == (if o is Some { o } else { p });
pub assume_specification<T, U>[ Option::<T>::and ](o: Option<T>, p: Option<U>) -> (r: Option<U>) ensures r == (if o is Some { p } else { None::<U> });
pub assume_specification<T>[ Option::<T>::xor ](o: Option<T>, p: Option<T>) -> (r: Option<T>) ensures r == (if o is Some && p is None { o } else if o is None && p is Some { p } else { None::<T> });
pub assume_specification<T, U>[ Option::<T>::zip ](o: Option<T>, p: Option<U>) -> (r: Option<(T, U)>) ensures r == (if o is Some && p is Some { Some(((o->0), (p->0))) } else { None::<(T, U)> });
pub assume_specification<T: Copy>[ Option::<&T>::copied ](o: Option<&T>) -> (r: Option<T>) ensures r == (match o { Some(x) => Some(*x), None => None::<T> });
pub assume_specification<T>[ <[T]>::split_last ](s: &[T]) -> (r: Option<(&T, &[T])>) ensures match r { None => s@.len() == 0, Some(x) => s@.len() > 0 && *x.0 == s@.last() && x.1@ == s@.drop_last() };
pub assume_specification<T>[ <[T]>::swap ](s: &mut [T], a: usize, b: usize) requires a < old(s)@.len(), b < old(s)@.len() ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification<T>[ <[T]>::reverse ](s: &mut [T]) ensures final(s)@ == old(s)@.reverse();
/// does a text start with a pattern, and how long is that
pub uninterp spec fn starts_spec<P>(s: Seq<u8>, p: P) -> bool;
pub uninterp spec fn pat_len<P>(p: P) -> int;
pub broadcast axiom fn axiom_starts_ascii(s: Seq<u8>, c: char)
    requires (c as int) < 128, valid_utf8(s),
    ensures #[trigger] starts_spec::<char>(s, c) == (s.len() > 0 && s[0] == c as u8);
pub broadcast axiom fn axiom_starts_str<'a>(s: Seq<u8>, t: &'a str)
    ensures #[trigger] starts_spec::<&'a str>(s, t) == t.spec_bytes().is_prefix_of(s);
pub broadcast axiom fn axiom_pat_len_ascii(c: char)
    requires (c as int) < 128,
    ensures #[trigger] pat_len::<char>(c) == 1;
pub broadcast axiom fn axiom_pat_len_str<'a>(t: &'a str)
    ensures #[trigger] pat_len::<&'a str>(t) == t.spec_bytes().len();
pub assume_specification<P: core::str::pattern::Pattern>[ str::starts_with::<P> ](s: &str, p: P) -> (r: bool) ensures r == starts_spec::<P>(s.spec_bytes(), p);
pub assume_specification<P: core::str::pattern::Pattern>[ str::contains::<P> ](s: &str, p: P) -> (r: bool) ensures r == (find_spec::<P>(s.spec_bytes(), p) is Some);
pub assume_specification<'a, P: core::str::pattern::Pattern>[ str::strip_prefix::<P> ](s: &'a str, p: P) -> (r: Option<&'a str>)
    ensures match r { Some(x) => starts_spec::<P>(s.spec_bytes(), p) && x.spec_bytes() == s.spec_bytes().skip(pat_len::<P>(p)), None => !starts_spec::<P>(s.spec_bytes(), p) };
pub assume_specification<'a, P: core::str::pattern::Pattern>[ str::split_once::<P> ](s: &'a str, p: P) -> (r: Option<(&'a str, &'a str)>)
    ensures match find_spec::<P>(s.spec_bytes(), p) { Some(i) => r is Some && (r->0).0.spec_bytes() == s.spec_bytes().take(i as int) && (r->0).1.spec_bytes() == s.spec_bytes().skip(i + pat_len::<P>(p)), None => r is None };
#[verifier::allow(undeclared_external_trait)]

pub broadcast group group_std {
    axiom_starts_ascii, axiom_starts_str, axiom_pat_len_ascii, axiom_pat_len_str,
    axiom_string_from_obeys, axiom_string_from,
    axiom_char_obeys, axiom_char_cmp, axiom_slice_len, axiom_str_len, axiom_find_ascii,
    axiom_parse_i8, axiom_parse_u8, axiom_parse_i16, axiom_parse_u16, axiom_parse_i32, axiom_parse_u32, axiom_parse_i64, axiom_parse_u64, axiom_parse_i128, axiom_parse_u128, axiom_parse_isize, axiom_parse_usize,
}
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T>[std::mem::replace::<T>](dest: &mut T, src: T) -> (r: T) ensures *final(dest) == src, r == *old(dest);
pub assume_specification<T: Ord + std::marker::Destruct> [std::cmp::min] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) == std::cmp::Ordering::Greater { b } else { a });
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T: Ord + std::marker::Destruct> [std::cmp::max] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) == std::cmp::Ordering::Greater { a } else { b });
} // verus!
