//! Independent reference: grammars, message text, message parser.  Written from the specification, not from /repo.
pub fn canon_uint(s: &[u8]) -> bool { !s.is_empty() && s.iter().all(|c| (48..58).contains(c)) && (s.len() == 1 || s[0] != 48) }
fn cmp_dec(a: &[u8], b: &[u8]) -> std::cmp::Ordering { a.len().cmp(&b.len()).then_with(|| a.cmp(b)) }
/// canonical text of an integer between -|min| and max (texts of the magnitudes)
pub fn int_ok(s: &[u8], min_mag: &str, max: &str) -> bool {
    if s.first() == Some(&b'-') { canon_uint(&s[1..]) && s[1] != 48 && cmp_dec(&s[1..], min_mag.as_bytes()) != std::cmp::Ordering::Greater }
    else { canon_uint(s) && cmp_dec(s, max.as_bytes()) != std::cmp::Ordering::Greater }
}
pub fn u16_of(s: &[u8]) -> Option<u16> { if int_ok(s, "0", "65535") { Some(s.iter().fold(0u32, |a, c| a * 10 + (*c - 48) as u32) as u16) } else { None } }
/// Unicode standard, table 3-7
pub fn utf8_ok(s: &[u8]) -> bool {
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        let (n, lo, hi) = match c {
            0..=0x7f => (0, 0, 0), 0xc2..=0xdf => (1, 0x80, 0xbf), 0xe0 => (2, 0xa0, 0xbf), 0xe1..=0xec | 0xee | 0xef => (2, 0x80, 0xbf),
            0xed => (2, 0x80, 0x9f), 0xf0 => (3, 0x90, 0xbf), 0xf1..=0xf3 => (3, 0x80, 0xbf), 0xf4 => (3, 0x80, 0x8f), _ => return false,
        };
        for k in 1..=n {
            let x = match s.get(i + k) { Some(x) => *x, None => return false };
            if k == 1 { if x < lo || x > hi { return false } } else if x < 0x80 || x > 0xbf { return false }
        }
        i += n + 1;
    }
    true
}
fn alpha(c: u8) -> bool { (65..=90).contains(&c) || (97..=122).contains(&c) }
pub fn client_id(s: &[u8]) -> bool { !s.is_empty() && s.iter().all(|&c| alpha(c) || (48..58).contains(&c)) }
pub fn ident(s: &[u8]) -> bool { !s.is_empty() && (alpha(s[0]) || s[0] == 95) && s.iter().all(|&c| alpha(c) || c == 95 || c == 45) }
/// length of the name, version
pub fn module(s: &[u8]) -> Option<(usize, u16)> {
    for k in 1..s.len() { if ident(&s[..k]) { if let Some(v) = u16_of(&s[k..]) { if v > 0 { return Some((k, v)); } } } }
    None
}
/// offset of the dot, module, minor version
pub fn modver(s: &[u8]) -> Option<(usize, (usize, u16), u16)> {
    for d in 0..s.len() { if s[d] == 46 { if let (Some(m), Some(v)) = (module(&s[..d]), u16_of(&s[d + 1..])) { return Some((d, m, v)); } } }
    None
}
pub fn scoped(s: &[u8]) -> Option<(usize, (usize, u16))> {
    for d in 0..s.len() { if s[d] == 46 { if let Some(m) = module(&s[..d]) { if ident(&s[d + 1..]) { return Some((d, m)); } } } }
    None
}
pub fn msgtype(s: &[u8]) -> bool { s == b"want" || s == b"have" || s == b"nope" || scoped(s).is_some() }

pub fn netstr(s: &[u8]) -> Vec<u8> { let mut v = s.len().to_string().into_bytes(); v.push(b':'); v.extend_from_slice(s); v.push(b','); v }
pub fn message<T: AsRef<[u8]>>(e: &[T]) -> Vec<u8> {
    let mut v = b"{".to_vec();
    v.extend_from_slice(e.len().to_string().as_bytes());
    v.push(b'|');
    for x in e { v.extend_from_slice(&netstr(x.as_ref())); }
    v.push(b'}');
    v
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Eof, Opener, Closer, Number, TooLarge, Zeroes, ListSigil, StrSigil, StrCloser, NoType, BadType }
pub type PErr = (Kind, usize);
fn expect(b: &[u8], o: usize, c: u8, k: Kind) -> Result<usize, PErr> {
    match b.get(o) { None => Err((Kind::Eof, b.len())), Some(&x) if x == c => Ok(o + 1), _ => Err((k, o)) }
}
fn number(b: &[u8], o: usize) -> Result<(usize, usize), PErr> {
    if o >= b.len() { return Err((Kind::Eof, b.len())); }
    let mut e = o;
    while e < b.len() && (48..58).contains(&b[e]) { e += 1; }
    if e == o { return Err((Kind::Number, o)); }
    if e > o + 1 && b[o] == 48 { return Err((Kind::Zeroes, e)); }
    if !int_ok(&b[o..e], "0", &usize::MAX.to_string()) { return Err((Kind::TooLarge, e)); }
    Ok((b[o..e].iter().fold(0usize, |a, c| a * 10 + (*c - 48) as usize), e))
}
fn string(b: &[u8], o: usize) -> Result<((usize, usize), usize), PErr> {
    let (n, o) = number(b, o)?;
    let o = expect(b, o, b':', Kind::StrSigil)?;
    if n > b.len() - o { return Err((Kind::Eof, b.len())); }
    let e = expect(b, o + n, b',', Kind::StrCloser)?;
    Ok(((o, o + n), e))
}
/// the length of the message, the places of its elements
pub fn parse(b: &[u8]) -> Result<(usize, Vec<(usize, usize)>), PErr> {
    let o = expect(b, 0, b'{', Kind::Opener)?;
    let (n, o) = number(b, o)?;
    let mut o = expect(b, o, b'|', Kind::ListSigil)?;
    if n == 0 { return Err((Kind::NoType, o)); }
    let mut v = vec![];
    for i in 0..n {
        let (s, e) = string(b, o)?;
        if i == 0 && !msgtype(&b[s.0..s.1]) { return Err((Kind::BadType, e)); }
        v.push(s);
        o = e;
    }
    let o = expect(b, o, b'}', Kind::Closer)?;
    Ok((o, v))
}
