//! C01 C02 C03
use crate::ctx::*;
use crate::oracle;
use vt6::common::core::*;

/// encoding into a buffer of exactly the announced size, with canaries around it
pub fn enc_check<T: EncodeArgument + ?Sized>(v: &T, expect: &[u8]) -> Result<(), String> {
    let n = v.get_size();
    if n != expect.len() { return Err(format!("announced size is {}, but the text {} has {} bytes", n, show(expect), expect.len())); }
    for &fill in &[0u8, 0xA5] {
        let mut buf = vec![fill; n + 16];
        v.encode(&mut buf[8..8 + n]);
        if &buf[8..8 + n] != expect { return Err(format!("encoded as {} instead of {}", show(&buf[8..8 + n]), show(expect))); }
    }
    Ok(())
}

fn mags(c: &mut Ctx) -> Vec<u128> {
    let mut v: Vec<u128> = (0..300).collect();
    let mut p = 1u128;
    for _ in 0..39 { for d in 0..3 { v.push(p.wrapping_add(d)); v.push(p.wrapping_sub(d)); v.push(p.wrapping_mul(5).wrapping_add(d)); v.push(p.wrapping_mul(9).wrapping_sub(d)); } p = p.wrapping_mul(10); }
    for k in 0..128 { let x = 1u128 << k; for d in 0..3 { v.push(x.wrapping_add(d)); v.push(x.wrapping_sub(d)); } }
    for &m in c.ints.clone().iter() { for d in 0..4u128 { v.push(m.wrapping_add(d)); v.push(m.wrapping_sub(d)); v.push(m.wrapping_mul(10).wrapping_add(d)); } }
    v.push(u128::MAX);
    v.sort(); v.dedup();
    v
}
macro_rules! enc_type {
    ($c:expr, $t:ident, $mags:expr, $n:expr, $full:expr) => {{
        let one = |c: &mut Ctx, v: $t| {
            let s = v.to_string();
            c.case(fnv(format!("{}{}", stringify!($t), s).as_bytes()), false, &|| format!("{}{}", s, stringify!($t)), &mut || enc_check(&v, s.as_bytes()));
        };
        if $full { let mut v = $t::MIN; loop { one($c, v); if v == $t::MAX || $c.failed() { break; } v += 1; } }
        else {
            one($c, $t::MIN); one($c, $t::MAX);
            for d in 0..50u8 { one($c, $t::MIN + d as $t); one($c, $t::MAX - d as $t); }
            for &m in $mags.iter() { one($c, m as $t); one($c, (m as $t).wrapping_neg()); }
            let bits = std::mem::size_of::<$t>() * 8;
            for _ in 0..$n {
                if $c.done() { break; }
                let v = ($c.rng.u128() >> ($c.rng.below(bits) + 128 - bits)) as $t;
                one($c, v);
                one($c, v.wrapping_neg());
            }
        }
    }};
}
pub fn c01(mut c: Ctx) -> ! {
    let m = mags(&mut c);
    let n = if c.thorough { 4_000_000 } else { 60_000 };
    let c_ = &mut c;
    enc_type!(c_, i8, m, n, true); enc_type!(c_, u8, m, n, true); enc_type!(c_, i16, m, n, true); enc_type!(c_, u16, m, n, true);
    enc_type!(c_, i32, m, n, false); enc_type!(c_, u32, m, n, false); enc_type!(c_, i64, m, n, false); enc_type!(c_, u64, m, n, false);
    enc_type!(c_, i128, m, n, false); enc_type!(c_, u128, m, n, false); enc_type!(c_, isize, m, n, false); enc_type!(c_, usize, m, n, false);
    c.finish("each case encodes one integer of one type; non-trivial: all; values: all 8 and 16 bit ones, boundaries (powers of 2, 5, 10, extreme values, numbers in the source), random bit lengths", "see rule");
}

fn int_texts(c: &mut Ctx, n: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    // all short strings over a small alphabet
    let al = b"0123459+- a.\x00\xff_x";
    let mut cur: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..4 {
        v.extend(cur.iter().cloned());
        let mut nx = vec![];
        for s in &cur { for &a in al.iter() { let mut t = s.clone(); t.push(a); nx.push(t); } }
        cur = nx;
    }
    for x in 0..=255u8 { v.push(vec![x]); v.push(vec![b'1', x]); v.push(vec![x, b'1']); v.push(vec![b'-', x]); v.push(vec![b'1', x, b'1']); v.push(vec![b'1', b'2', x]); }
    for i in 0..=66000u32 { v.push(i.to_string().into_bytes()); if i <= 33000 { v.push(format!("-{}", i).into_bytes()); } }
    let mut base: Vec<String> = mags(c).iter().map(|m| m.to_string()).collect();
    for b in &["340282366920938463463374607431768211456", "340282366920938463463374607431768211460", "999999999999999999999999999999999999999", "170141183460469231731687303715884105729", "1000000000000000000000000000000000000000000000"] { base.push(b.to_string()); }
    for m in base.iter() {
        for p in &["", "-", "+", "0", "00", "-0", "--", "+-", " ", "-+", "+0", "\n"] { v.push(format!("{}{}", p, m).into_bytes()); }
        for p in &["0", " ", ".0", "\0", "e1", "_", "u8", "\n", "00", "-"] { v.push(format!("{}{}", m, p).into_bytes()); v.push(format!("-{}{}", m, p).into_bytes()); }
    }
    for l in c.lits.clone() { v.push(l); }
    // long runs of zeroes and digits
    for k in &[10usize, 20, 39, 40, 41, 100, 256, 300, 1000] { v.push(vec![b'0'; *k]); v.push(vec![b'9'; *k]); let mut t = vec![b'0'; *k]; t.push(b'7'); v.push(t); let mut t = vec![b'1'; *k]; t.push(b' '); v.push(t); }
    for _ in 0..n {
        let bits = c.rng.below(128);
        let mut s = (c.rng.u128() >> bits).to_string().into_bytes();
        if c.rng.chance(1, 2) { s.insert(0, b'-'); }
        if c.rng.chance(1, 2) {
            for _ in 0..1 + c.rng.below(2) {
                let i = c.rng.below(s.len() + 1);
                let x = if c.rng.chance(1, 2) { *c.rng.pick(b"0123456789+-. ") } else { c.rng.u64() as u8 };
                if c.rng.chance(1, 2) || i == s.len() { s.insert(i, x); } else { s[i] = x; }
            }
        }
        v.push(s);
    }
    v
}
macro_rules! dec_type {
    ($c:expr, $t:ident, $texts:expr) => {{
        let (mn, mx) = ($t::MIN.to_string(), $t::MAX.to_string());
        let mn = mn.trim_start_matches('-').to_string();
        for s in $texts.iter() {
            if $c.done() { break; }
            $c.case(fnv(s) ^ fnv(stringify!($t).as_bytes()), false, &|| format!("{}::decode_argument({})", stringify!($t), show(s)), &mut || {
                let r = $t::decode_argument(s);
                let ok = oracle::int_ok(s, &mn, &mx);
                match r {
                    None if ok => Err("rejected, but it is the canonical text of a value".into()),
                    Some(v) if !ok => Err(format!("accepted as {}, but it is not canonical", v)),
                    Some(v) if v.to_string().as_bytes() != &s[..] => Err(format!("decoded as {}", v)),
                    _ => Ok(()),
                }
            });
        }
    }};
}
pub fn c02(mut c: Ctx) -> ! {
    let n = if c.thorough { 1_000_000 } else { 60_000 };
    let t = int_texts(&mut c, n);
    let c_ = &mut c;
    dec_type!(c_, i8, t); dec_type!(c_, u8, t); dec_type!(c_, i16, t); dec_type!(c_, u16, t); dec_type!(c_, i32, t); dec_type!(c_, u32, t);
    dec_type!(c_, i64, t); dec_type!(c_, u64, t); dec_type!(c_, i128, t); dec_type!(c_, u128, t); dec_type!(c_, isize, t); dec_type!(c_, usize, t);
    c.finish("each case decodes one byte string as one integer type; non-trivial: all; strings: all up to 3 bytes over 16 bytes, all canonical texts up to 66000, boundary values with prefixes and suffixes, random texts with mutations", "strings up to 1000 bytes");
}

/// byte strings that exercise UTF-8 decoding, lengths, separators, and constants of the source
pub fn byte_strings(c: &mut Ctx, n: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    for a in 0..=255u8 { v.push(vec![a]); v.push(vec![b't', a]); v.push(vec![a, b'f']); }
    for a in 0..=255u8 { for b in (0..=255u8).step_by(3) { v.push(vec![a, b]); } }
    let frag: Vec<&[u8]> = vec![b"a", b"t", b"f", b",", b":", b"{", b"}", b"|", b"0", b"\0", b"\xc2\x80", b"\xdf\xbf", b"\xc1\xbf", b"\xe0\xa0\x80", b"\xe0\x9f\xbf", b"\xed\x9f\xbf", b"\xed\xa0\x80", b"\xef\xbf\xbf", b"\xf0\x90\x80\x80", b"\xf0\x8f\xbf\xbf", b"\xf4\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf5", b"\x80", b"\xff", b"\xe2\x82", b"\xef\xbb\xbf", b"\xf0\x9f\x98"];
    for a in &frag { for b in &frag { v.push([*a, *b].concat()); } }
    for l in c.lits.clone() { v.push(l); }
    for l in c.hot_lits.clone() { for k in 0..l.len() { v.push(l[..k].to_vec()); } let mut t = l.clone(); t.push(b'x'); v.push(t); v.push([&b"x"[..], &l].concat()); }
    let mut lens: Vec<usize> = vec![7, 8, 9, 15, 16, 31, 32, 63, 64, 65, 99, 100, 127, 128, 255, 256, 257, 511, 512, 999, 1000, 1023, 1024, 1025, 4072, 9999, 10000, 65535, 65536];
    for i in c.hot_ints.clone() { if i < 200_000 { for d in 0..2 { lens.push(i as usize + d); lens.push((i as usize).saturating_sub(d)); } } }
    for l in lens { v.push(vec![b'x'; l]); let mut t = vec![b'y'; l]; if l > 0 { t[l - 1] = 0xff; } v.push(t); v.push(c.rng.bytes(l)); }
    for _ in 0..n {
        let k = c.rng.below(8);
        let mut t = vec![];
        for _ in 0..k { t.extend_from_slice(frag[c.rng.below(frag.len())]); }
        if c.rng.chance(1, 4) { let l = c.rng.below(40); t.extend(c.rng.bytes(l)); }
        v.push(t);
    }
    v
}
fn opt_dec<'a, T: DecodeArgument<'a> + PartialEq + std::fmt::Debug>(s: &'a [u8]) -> Result<(), String> {
    let inner = T::decode_argument(s);
    let r = Option::<T>::decode_argument(s);
    let want = if s.is_empty() { Some(None) } else { inner.map(Some) };
    if r != want { return Err(format!("decoded as optional: {:?} instead of {:?}", r, want)); }
    Ok(())
}
fn opt_enc<T: EncodeArgument + ?Sized>(v: &T, text: &[u8]) -> Result<(), String> {
    enc_check(&Some(v), text)?;
    enc_check(&None::<&T>, b"")
}
pub fn c03(mut c: Ctx) -> ! {
    use std::os::unix::ffi::OsStrExt;
    let n = if c.thorough { 2_000_000 } else { 120_000 };
    let v = byte_strings(&mut c, n);
    for b in &[true, false] {
        let t: &[u8] = if *b { b"t" } else { b"f" };
        c.case(*b as u64, false, &|| format!("{}", b), &mut || { enc_check(b, t)?; opt_enc(b, t) });
    }
    for s in v.iter() {
        if c.done() { break; }
        c.case(fnv(s), false, &|| format!("argument {}", show(s)), &mut || {
            let r = bool::decode_argument(s);
            let w = if &s[..] == b"t" { Some(true) } else if &s[..] == b"f" { Some(false) } else { None };
            if r != w { return Err(format!("decoded as bool: {:?}", r)); }
            if <&[u8]>::decode_argument(s) != Some(&s[..]) { return Err("does not decode to itself as byte string".into()); }
            let p = <&std::path::Path>::decode_argument(s);
            match p { None => return Err("rejected as path".into()), Some(p) if p.as_os_str().as_bytes() != &s[..] => return Err(format!("decoded as path {:?}", p)), Some(p) => { enc_check(p, s)?; opt_enc(p, s)?; } }
            enc_check(&s[..], s)?;
            match <&str>::decode_argument(s) {
                None => if oracle::utf8_ok(s) { return Err("rejected as text, but it is valid UTF-8".into()); },
                Some(t) => { if !oracle::utf8_ok(s) { return Err("accepted as text, but it is not UTF-8".into()); } if t.as_bytes() != &s[..] { return Err(format!("decoded as text {:?}", t)); } enc_check(t, s)?; opt_enc(t, s)?; }
            }
            opt_dec::<bool>(s)?; opt_dec::<&[u8]>(s)?; opt_dec::<&str>(s)?; opt_dec::<&std::path::Path>(s)?; opt_dec::<u8>(s)?; opt_dec::<i128>(s)?; opt_dec::<ClientID>(s)?; opt_dec::<ModuleIdentifier>(s)?;
            Ok(())
        });
    }
    c.finish("each case takes one byte string through all non-integer codecs (decode, encode, optional variants); non-trivial: distinct strings; strings: all of 1 byte, a third of all of 2 bytes, UTF-8 boundary fragments in combination, special lengths, constants of the source, random", "strings up to 200000 bytes");
}
