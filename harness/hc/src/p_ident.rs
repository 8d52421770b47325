//! C04 C05
use crate::ctx::*;
use crate::oracle;
use crate::p_codec::enc_check;
use vt6::common::core::*;

fn agree(what: &str, parsed: Option<bool>, decoded: bool, grammar: bool) -> Result<(), String> {
    if let Some(p) = parsed { if p != grammar { return Err(format!("{}::parse {} it, but the grammar says {}", what, if p { "accepts" } else { "rejects" }, if grammar { "valid" } else { "invalid" })); } }
    if decoded != grammar { return Err(format!("decoding as {} {} it, but the grammar says {}", what, if decoded { "accepts" } else { "rejects" }, if grammar { "valid" } else { "invalid" })); }
    Ok(())
}
pub fn c04(mut c: Ctx) -> ! {
    let n = if c.thorough { 3_000_000 } else { 150_000 };
    for s in crate::gen::texts(&mut c, n) {
        if c.done() { break; }
        c.case(fnv(&s), false, &|| format!("text {}", show(&s)), &mut || {
            let t = std::str::from_utf8(&s).ok();
            agree("ClientID", t.map(|t| ClientID::parse(t).is_some()), ClientID::decode_argument(&s).is_some(), oracle::client_id(&s))?;
            agree("Identifier", t.map(|t| Identifier::parse(t).is_some()), Identifier::decode_argument(&s).is_some(), oracle::ident(&s))?;
            agree("ModuleIdentifier", t.map(|t| ModuleIdentifier::parse(t).is_some()), ModuleIdentifier::decode_argument(&s).is_some(), oracle::module(&s).is_some())?;
            agree("ModuleVersion", t.map(|t| ModuleVersion::parse(t).is_some()), ModuleVersion::decode_argument(&s).is_some(), oracle::modver(&s).is_some())?;
            agree("ScopedIdentifier", t.map(|t| ScopedIdentifier::parse(t).is_some()), ScopedIdentifier::decode_argument(&s).is_some(), oracle::scoped(&s).is_some())?;
            agree("MessageType", t.map(|t| MessageType::parse(t).is_some()), MessageType::decode_argument(&s).is_some(), oracle::msgtype(&s))
        });
    }
    c.finish("each case parses and decodes one byte string as the six identifier-like types and compares with independent recognisers; non-trivial: distinct strings; strings: all up to 5 symbols of 11, all single bytes in 56 contexts, characters of all planes, version numbers up to 65600 and at limits, long ones, constants of the source, random", "strings up to 100000 bytes")
}
fn same(what: &str, got: &[u8], want: &[u8]) -> Result<(), String> { if got == want { Ok(()) } else { Err(format!("{} is {} instead of {}", what, show(got), show(want))) } }
fn num(what: &str, got: u16, want: u16) -> Result<(), String> { if got == want { Ok(()) } else { Err(format!("{} is {} instead of {}", what, got, want)) } }
fn chk_module(m: &ModuleIdentifier, s: &[u8]) -> Result<(), String> {
    let (k, v) = oracle::module(s).ok_or("not a module identifier")?;
    same("text of the module identifier", m.as_str().as_bytes(), s)?;
    same("name of the module identifier", m.name().as_str().as_bytes(), &s[..k])?;
    num("major version", m.major_version(), v)?;
    enc_check(m, s)?;
    enc_check(&m.name(), &s[..k])
}
fn chk_scoped(m: &ScopedIdentifier, s: &[u8]) -> Result<(), String> {
    let (d, _) = oracle::scoped(s).ok_or("not a scoped identifier")?;
    same("text of the scoped identifier", m.as_str().as_bytes(), s)?;
    chk_module(&m.module(), &s[..d])?;
    same("member", m.member().as_str().as_bytes(), &s[d + 1..])?;
    enc_check(&m.member(), &s[d + 1..])?;
    enc_check(m, s)
}
fn chk_modver(m: &ModuleVersion, s: &[u8]) -> Result<(), String> {
    let (d, _, v) = oracle::modver(s).ok_or("not a module version")?;
    chk_module(&m.module(), &s[..d])?;
    num("minor version", m.minor_version(), v)?;
    enc_check(m, s)
}
fn chk_type(m: &MessageType, s: &[u8]) -> Result<(), String> {
    same("text of the message type", m.as_str().as_bytes(), s)?;
    let ok = match m { MessageType::Want => s == b"want", MessageType::Have => s == b"have", MessageType::Nope => s == b"nope", MessageType::Scoped(x) => { chk_scoped(x, s)?; true } };
    if !ok { return Err(format!("wrong variant {:?}", m)); }
    enc_check(m, s)
}
pub fn c05(mut c: Ctx) -> ! {
    let n = if c.thorough { 3_000_000 } else { 150_000 };
    let minors: Vec<u16> = { let mut v = vec![0u16, 1, 9, 10, 11, 99, 100, 999, 1000, 9999, 10000, 32768, 65534, 65535]; for i in c.hot_ints.clone() { if i < 65536 { v.push(i as u16); } } v };
    let mut k = 0usize;
    for s in crate::gen::texts(&mut c, n) {
        if c.done() { break; }
        let mv = minors[k % minors.len()]; k += 1;
        let valid = oracle::client_id(&s) || oracle::ident(&s) || oracle::module(&s).is_some() || oracle::modver(&s).is_some() || oracle::msgtype(&s);
        c.case(fnv(&s), !valid, &|| format!("text {} (minor version {})", show(&s), mv), &mut || {
            for pass in 0..2 {
                let t = std::str::from_utf8(&s).ok();
                macro_rules! get { ($t:ident) => { if pass == 0 { $t::decode_argument(&s) } else { t.and_then(|t| $t::parse(t)) } } }
                if let Some(x) = get!(ClientID) { same("text of the client ID", x.as_str().as_bytes(), &s)?; enc_check(&x, &s)?; }
                if let Some(x) = get!(Identifier) { same("text of the identifier", x.as_str().as_bytes(), &s)?; enc_check(&x, &s)?; }
                if let Some(x) = get!(ModuleIdentifier) {
                    chk_module(&x, &s)?;
                    let w = x.with_minor_version(mv);
                    chk_module(&w.module(), &s)?;
                    num("minor version", w.minor_version(), mv)?;
                    enc_check(&w, format!("{}.{}", x.as_str(), mv).as_bytes())?;
                }
                if let Some(x) = get!(ModuleVersion) { chk_modver(&x, &s)?; }
                if let Some(x) = get!(ScopedIdentifier) { chk_scoped(&x, &s)?; }
                if let Some(x) = get!(MessageType) { chk_type(&x, &s)?; }
            }
            Ok(())
        });
    }
    // all minor versions
    let m = ModuleIdentifier::parse("core1").unwrap();
    for v in 0..=65535u16 { c.case(v as u64, false, &|| format!("core1 with minor version {}", v), &mut || { let w = m.with_minor_version(v); num("minor version", w.minor_version(), v)?; enc_check(&w, format!("core1.{}", v).as_bytes()) }); }
    c.finish("each case parses and decodes one byte string as the six identifier-like types and compares all components and the encoding; non-trivial: strings that are valid as at least one type; strings as for C04, and all minor versions", "strings up to 100000 bytes")
}
