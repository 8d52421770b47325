//! C06 C07 C08 C09 C10 C11
use crate::ctx::*;
use crate::gen;
use crate::oracle::{self, Kind};
use vt6::common::core::msg::*;
use vt6::common::core::*;

pub fn kind(k: &ParseErrorKind) -> Kind {
    use ParseErrorKind::*;
    match k { UnexpectedEOF => Kind::Eof, ExpectedMessageOpener => Kind::Opener, ExpectedMessageCloser => Kind::Closer, ExpectedDecimalNumber => Kind::Number, DecimalNumberTooLarge => Kind::TooLarge, DecimalNumberHasLeadingZeroes => Kind::Zeroes, ExpectedListSigil => Kind::ListSigil, ExpectedStringSigil => Kind::StrSigil, ExpectedStringCloser => Kind::StrCloser, ExpectedMessageType => Kind::NoType, InvalidMessageType => Kind::BadType }
}
pub fn c06(mut c: Ctx) -> ! {
    let n = if c.thorough { 5_000_000 } else { 300_000 };
    gen::buffers(&mut c, &mut |c, b| c.case(fnv(b), b.is_empty(), &|| format!("buffer {}", show(b)), &mut || {
        match (Message::parse(b), oracle::parse(b)) {
            (Ok((m, k)), Ok((n, e))) => {
                if k != n { return Err(format!("{} bytes reported, the message has {}", k, n)); }
                if b[k - 1] != b'}' { return Err("last byte is not the closer".into()); }
                let t = &b[e[0].0..e[0].1];
                if m.parsed_type().as_str().as_bytes() != t { return Err(format!("type reported as {}", m.parsed_type().as_str())); }
                let ok = match m.parsed_type() { MessageType::Want => t == b"want", MessageType::Have => t == b"have", MessageType::Nope => t == b"nope", MessageType::Scoped(s) => s.as_str().as_bytes() == t };
                if !ok { return Err("wrong message type variant".into()); }
                Ok(())
            }
            (Err(_), Err(_)) => Ok(()),
            (Ok((_, k)), Err(e)) => Err(format!("accepted ({} bytes), but it deviates from the grammar: {:?}", k, e)),
            (Err(e), Ok((n, _))) => Err(format!("rejected ({:?}), but it starts with a valid message of {} bytes", e.kind, n)),
        }
    }), n);
    c.finish("each case parses one buffer and compares with an independent parser; non-trivial: distinct buffers; buffers: all short ones over small alphabets behind ten valid beginnings, limits of numbers, counts and lengths, grammar-directed, mutated", "buffers up to 200000 bytes")
}
fn c07_check(b: &[u8]) -> Result<(), String> {
    let r = Message::parse(b);
    let w = oracle::parse(b);
    match (&r, &w) {
        (Err(e), Err((k, o))) => {
            if e.buffer.as_ptr() != b.as_ptr() || e.buffer.len() != b.len() { return Err("the error does not carry the buffer".into()); }
            if kind(&e.kind) != *k { return Err(format!("reported as {:?}, but the first deviation is {:?} at {}", e.kind, k, o)); }
            if e.offset > b.len() { return Err(format!("offset {} is outside the buffer", e.offset)); }
            if e.is_incomplete() != (*k == Kind::Eof) { return Err("is_incomplete() contradicts the kind".into()); }
            if e.offset != *o { return Err(format!("located at {}, but the first deviation is at {}", e.offset, o)); }
            Ok(())
        }
        (Ok(_), Ok(_)) => Ok(()),
        (Ok(_), Err(e)) => Err(format!("accepted, but it deviates: {:?}", e)),
        (Err(e), Ok(_)) => Err(format!("rejected as {:?}, but it is valid", e.kind)),
    }
}
pub fn c07(mut c: Ctx) -> ! {
    let n = if c.thorough { 2_000_000 } else { 120_000 };
    let mut k = 0u64;
    gen::buffers(&mut c, &mut |c, b| {
        c.case(fnv(b), b.is_empty(), &|| format!("buffer {}", show(b)), &mut || c07_check(b));
        k += 1;
        match oracle::parse(b) {
            // every proper prefix is incomplete
            Ok((n, _)) if k % 17 == 0 && n < 3000 => for i in 0..n {
                if n > 300 && i % 7 != 0 && i + 20 < n { continue; }
                let p = &b[..i];
                c.case(fnv(p) ^ 1, false, &|| format!("prefix {} of a valid message", show(p)), &mut || match Message::parse(p) { Err(e) if e.is_incomplete() => Ok(()), Err(e) => Err(format!("not reported as incomplete, but as {:?}", e.kind)), Ok(_) => Err("accepted".into()) });
            },
            // appending bytes to a rejected buffer does not change the verdict
            Err((w, _)) if w != Kind::Eof && k % 5 == 0 => {
                let mut t = b.to_vec();
                let x = *c.rng.pick(b"{}|:,0159aw\xff");
                t.push(x);
                c.case(fnv(&t) ^ 2, false, &|| format!("continued buffer {}", show(&t)), &mut || match Message::parse(&t) { Err(e) if kind(&e.kind) == w => Ok(()), Err(e) => Err(format!("{:?} became {:?}", w, e.kind)), Ok(_) => Err(format!("{:?} became valid", w)) });
            }
            _ => {}
        }
    }, n);
    c.finish("each case parses one buffer, a prefix or a continuation and compares the error with an independent parser; non-trivial: distinct buffers; buffers as for C06", "buffers up to 200000 bytes")
}
pub fn c08(mut c: Ctx) -> ! {
    let n = if c.thorough { 3_000_000 } else { 200_000 };
    gen::buffers(&mut c, &mut |c, b| {
        let w = match oracle::parse(b) { Ok(w) => w.1, Err(_) => return };
        c.case(fnv(b), w.len() < 2, &|| format!("message {}", show(b)), &mut || {
            let (m, _) = Message::parse(b).map_err(|_| "not parsed")?;
            for round in 0..2 {
                let mut it = m.arguments();
                let mut other = None;
                for i in 1..w.len() {
                    if it.len() != w.len() - i { return Err(format!("length {} announced before argument {} of {}", it.len(), i, w.len() - 1)); }
                    if i % 3 == round { other = Some((i, it.clone())); }
                    match it.next() {
                        None => return Err(format!("ends before argument {}", i)),
                        Some(a) if a != &b[w[i].0..w[i].1] => return Err(format!("argument {} is {} instead of {}", i, show(a), show(&b[w[i].0..w[i].1]))),
                        _ => {}
                    }
                }
                for _ in 0..3 { if it.len() != 0 { return Err("length is not 0 at the end".into()); } if let Some(a) = it.next() { return Err(format!("yields {} after the end", show(a))); } }
                if let Some((i, o)) = other { let l: Vec<&[u8]> = o.collect(); let e: Vec<&[u8]> = w[i..].iter().map(|x| &b[x.0..x.1]).collect(); if l != e { return Err("a copy of the iterator yields other arguments".into()); } }
            }
            // the methods that an iterator inherits or redefines
            let e: Vec<&[u8]> = w[1..].iter().map(|x| &b[x.0..x.1]).collect();
            if e.len() <= 200 {
                let it = m.arguments();
                let h = it.size_hint();
                if h.0 > e.len() || h.1.map_or(false, |x| x < e.len()) { return Err(format!("size hint {:?} for {} arguments", h, e.len())); }
                if m.arguments().count() != e.len() { return Err("other number of arguments counted".into()); }
                if m.arguments().last() != e.last().cloned() { return Err("other last argument".into()); }
                if m.arguments().fold(vec![], |mut v, a| { v.push(a); v }) != e { return Err("other arguments folded".into()); }
                for k in (0..e.len() + 2).filter(|k| *k < 4 || *k + 3 > e.len()) {
                    let mut it = m.arguments();
                    if it.nth(k) != e.get(k).cloned() { return Err(format!("nth({}) is another argument", k)); }
                    let left = e.len().saturating_sub(k + 1);
                    if it.len() != left { return Err(format!("length {} announced after nth({}) of {}", it.len(), k, e.len())); }
                    if it.collect::<Vec<_>>() != e[e.len() - left..] { return Err(format!("other arguments after nth({})", k)); }
                }
            }
            typed_arity(&m, &w, b)
        });
    }, n);
    // fixed-arity extraction, through the typed messages
    for i in 0..(if c.thorough { 1_000_000 } else { 100_000 }) {
        if c.done() { break; }
        let t = *c.rng.pick(&["want", "nope", "core1.client-make", "core1.client-new", "core1.client-end", "posix1.client-hello", "posix1.parent-hello", "posix1.server-hello", "posix1.stdin-hello", "posix1.stdout-hello"]);
        let k = i % 7;
        let mut e = vec![t.as_bytes().to_vec()];
        for _ in 0..k { let s = [0usize, 1, 2]; e.push(if c.rng.chance(1, 2) { let w = *c.rng.pick(&["abc", "x1", "core1", "want", "A"]); w.as_bytes().to_vec() } else { gen::arg(&mut c, &s) }); }
        let b = oracle::message(&e);
        let w = oracle::parse(&b).unwrap().1;
        c.case(fnv(&b) ^ 3, false, &|| format!("message {}", show(&b)), &mut || { let (m, _) = Message::parse(&b).map_err(|_| "not parsed")?; typed_arity(&m, &w, &b) });
    }
    c.finish("each case iterates over one valid message; non-trivial: at least one argument; buffers as for C06, and typed messages with 0 to 6 arguments", "buffers up to 200000 bytes")
}
/// fixed-arity extraction succeeds iff the number matches and each argument decodes
fn typed_arity(m: &Message, w: &[(usize, usize)], b: &[u8]) -> Result<(), String> {
    use vt6::msg::{core as mc, posix as mp, *};
    let a: Vec<&[u8]> = w[1..].iter().map(|x| &b[x.0..x.1]).collect();
    let cid = |i: usize| oracle::client_id(a[i]);
    let txt = |i: usize| oracle::utf8_ok(a[i]);
    let t = m.parsed_type();
    let (got, want) = match t.as_str() {
        "want" => (Want::decode_message(m).is_some(), a.len() == 1 && oracle::module(a[0]).is_some()),
        "nope" => (Nope::decode_message(m).is_some(), a.len() == 1 && oracle::msgtype(a[0])),
        "core1.client-make" => (mc::ClientMake::decode_message(m).is_some(), a.len() == 4 && cid(0) && txt(1) && txt(2) && txt(3)),
        "posix1.server-hello" => (mp::ServerHello::decode_message(m).is_some(), a.len() == 4 && cid(0) && txt(1) && txt(2) && txt(3)),
        "core1.client-end" => (mc::ClientEnd::decode_message(m).is_some(), a.len() == 1 && cid(0)),
        "core1.client-new" => (mc::ClientNew::decode_message(m).is_some(), a.len() == 1 && txt(0)),
        "posix1.client-hello" => (mp::ClientHello::decode_message(m).is_some(), a.len() == 1 && txt(0)),
        "posix1.stdin-hello" => (mp::StdinHello::decode_message(m).is_some(), a.len() == 1 && txt(0)),
        "posix1.stdout-hello" => (mp::StdoutHello::decode_message(m).is_some(), a.len() == 1 && txt(0)),
        "posix1.parent-hello" => (mp::ParentHello::decode_message(m).is_some(), a.len() == 2 && txt(0)),
        _ => (false, false),
    };
    if got != want { return Err(format!("fixed-arity extraction {}, but it should {}", if got { "succeeds" } else { "fails" }, if want { "succeed" } else { "fail" })); }
    Ok(())
}

/// an argument for the formatter, of various types
#[derive(Clone, Debug)]
pub enum Arg { B(Vec<u8>), S(String), U(u64), I(i64), Bool(bool), Opt(Option<String>), U128(u128) }
impl Arg {
    fn text(&self) -> Vec<u8> {
        match self { Arg::B(b) => b.clone(), Arg::S(s) => s.clone().into_bytes(), Arg::U(x) => x.to_string().into_bytes(), Arg::I(x) => x.to_string().into_bytes(), Arg::U128(x) => x.to_string().into_bytes(), Arg::Bool(b) => if *b { b"t".to_vec() } else { b"f".to_vec() }, Arg::Opt(None) => vec![], Arg::Opt(Some(s)) => s.clone().into_bytes() }
    }
    fn add(&self, f: &mut MessageFormatter) {
        match self { Arg::B(b) => f.add_argument(&b[..]), Arg::S(s) => f.add_argument(&s[..]), Arg::U(x) => f.add_argument(x), Arg::I(x) => f.add_argument(x), Arg::U128(x) => f.add_argument(x), Arg::Bool(b) => f.add_argument(b), Arg::Opt(o) => f.add_argument(&o.as_ref().map(|s| s.as_str())) }
    }
}
fn fmt_arg(c: &mut Ctx, szs: &[usize]) -> Arg {
    match c.rng.below(10) {
        0 => Arg::U(c.rng.u64() >> c.rng.below(64)), 1 => Arg::I((c.rng.u64() as i64) >> c.rng.below(63)), 2 => Arg::Bool(c.rng.chance(1, 2)), 3 => Arg::Opt(None), 4 => Arg::Opt(Some("x".repeat(c.rng.below(12)))), 5 => Arg::U128(c.rng.u128() >> c.rng.below(128)),
        6 => Arg::S("\u{e9}x".repeat(c.rng.below(8))),
        _ => { let s = gen::arg(c, szs); Arg::B(s) }
    }
}
fn fmt_case(c: &mut Ctx, ty: &str, args: &[Arg], size: usize) {
    let mut e: Vec<Vec<u8>> = vec![ty.as_bytes().to_vec()];
    e.extend(args.iter().map(|a| a.text()));
    let full = oracle::message(&e);
    let h = fnv(&full) ^ (size as u64).wrapping_mul(0x9E3779B97F4A7C15);
    c.case(h, false, &|| format!("message {} into a buffer of {} bytes", show(&full), size), &mut || {
        let usable = size.min(1024);
        let mut buf = vec![0u8; size + 64];
        for (i, x) in buf.iter_mut().enumerate() { *x = (i as u8).wrapping_mul(31) ^ 0x5A; }
        let orig = buf.clone();
        let r = { let mut f = MessageFormatter::new(&mut buf[32..32 + size], ty, args.len()); for a in args { a.add(&mut f); } f.finalize() };
        let keep = match r {
            Ok(n) => {
                if full.len() > usable { return Err(format!("success ({}), but the message has {} bytes and {} are usable", n, full.len(), usable)); }
                if n != full.len() { return Err(format!("size {} reported instead of {}", n, full.len())); }
                if buf[32..32 + n] != full[..] { return Err(format!("written {}", show(&buf[32..32 + n]))); }
                n
            }
            Err(BufferTooSmallError(x)) => {
                if full.len() <= usable { return Err(format!("failure ({}), but the message has {} bytes and {} are usable", x, full.len(), usable)); }
                if x != full.len() - usable { return Err(format!("excess {} reported instead of {}", x, full.len() - usable)); }
                usable
            }
        };
        if buf[..32] != orig[..32] || buf[32 + keep..] != orig[32 + keep..] { return Err("bytes outside of the reported area are modified".into()); }
        Ok(())
    });
}
/// a formatter that gets fewer or more arguments than announced must panic
fn arity_case(c: &mut Ctx, announced: usize, given: usize, len: usize, size: usize) {
    let h = fnv(format!("{} {} {} {}", announced, given, len, size).as_bytes());
    c.case(h, false, &|| format!("a message announced with {} arguments that gets {} (of {} bytes) in a buffer of {} bytes", announced, given, len, size), &mut || {
        let r = std::panic::catch_unwind(|| {
            let mut buf = vec![0u8; size];
            let a = vec![b'v'; len];
            let mut f = MessageFormatter::new(&mut buf[..], "core1.set", announced);
            for _ in 0..given { f.add_argument(&a[..]); }
            f.finalize().map_err(|e| e.0)
        });
        match r {
            Ok(x) => Err(format!("no panic, but {:?}", x)),
            Err(_) => Ok(()),
        }
    });
}
/// sizes that do not fit the machine word: a panic, or the exact excess
struct Huge(usize);
impl EncodeArgument for Huge { fn get_size(&self) -> usize { self.0 } fn encode(&self, b: &mut [u8]) { for x in b { *x = b'h' } } }
fn huge_case(c: &mut Ctx, sizes: &[usize]) {
    let h = fnv(format!("{:?}", sizes).as_bytes()) ^ 9;
    c.case(h, false, &|| format!("a message with arguments of {:?} bytes in a buffer of 64 bytes", sizes), &mut || {
        let r = std::panic::catch_unwind(|| {
            let mut buf = [0u8; 64];
            let mut f = MessageFormatter::new(&mut buf[..], "core1.set", sizes.len());
            for s in sizes { f.add_argument(&Huge(*s)); }
            f.finalize().map_err(|e| e.0)
        });
        let full: u128 = 16 + sizes.iter().map(|s| *s as u128 + s.to_string().len() as u128 + 2).sum::<u128>();
        match r {
            Ok(Err(x)) if x as u128 + 64 == full => Ok(()),
            Ok(x) => Err(format!("{:?}, but the message has {} bytes", x, full)),
            Err(_) if full > usize::MAX as u128 => Ok(()),
            Err(_) => Err("panics".into()),
        }
    });
}
pub fn c09(mut c: Ctx) -> ! {
    for k in 0..60usize { let m = usize::MAX; huge_case(&mut c, &[m - k]); huge_case(&mut c, &[m - k, 1]); huge_case(&mut c, &[m - k, m - k]); huge_case(&mut c, &[m / 2 + 1, m / 2 - k]); huge_case(&mut c, &[1, m / 3, m / 3, m / 3 - k]); huge_case(&mut c, &[m / 2 - k]); }
    for a in 0..12usize { for g in 0..14usize { if a != g { for s in &[0usize, 5, 40, 1024, 2000] { arity_case(&mut c, a, g, (a * g) % 5, *s); } } } }
    let n = if c.thorough { 1_500_000 } else { 60_000 };
    let szs = gen::sizes(&c);
    // one argument: all message lengths around the limit and all buffer sizes around the length
    for l in (0..80).chain(90..110).chain(960..1060) {
        let a = [Arg::B(vec![b'v'; l])];
        let full = oracle::message(&[b"core1.set".to_vec(), vec![b'v'; l]]).len();
        for d in 0..12usize { for s in &[full + d, full.saturating_sub(d), 1018 + d, d, 2048] { fmt_case(&mut c, "core1.set", &a, *s); } }
        if c.done() { break; }
    }
    for s in 0..80 { fmt_case(&mut c, "want", &[], s); fmt_case(&mut c, "", &[Arg::Bool(true)], s); fmt_case(&mut c, "core1.set", &[Arg::Opt(None), Arg::Opt(Some("a".into())), Arg::U(10), Arg::I(-9)], s); }
    for k in 0..345usize { let a = vec![Arg::B(vec![]); k]; for s in &[0usize, 1, 5, 300, 400, 1024] { fmt_case(&mut c, "nope", &a, *s); } let full = oracle::message(&vec![vec![]; k + 1]).len(); for d in 0..4 { fmt_case(&mut c, "", &a, full + d); fmt_case(&mut c, "", &a, full.saturating_sub(d)); } }
    for _ in 0..n {
        if c.done() { break; }
        let k = c.rng.below(5);
        let a: Vec<Arg> = (0..k).map(|_| fmt_arg(&mut c, &szs)).collect();
        let ty = if c.rng.chance(1, 10) { *c.rng.pick(gen::BAD_TYPES) } else { *c.rng.pick(gen::TYPES) };
        let mut e: Vec<Vec<u8>> = vec![ty.as_bytes().to_vec()]; e.extend(a.iter().map(|a| a.text()));
        let full = oracle::message(&e).len();
        let s = match c.rng.below(6) { 0 => full, 1 => full + c.rng.below(6), 2 => full.saturating_sub(c.rng.below(6)), 3 => 1018 + c.rng.below(12), 4 => c.rng.below(full + 1), _ => *c.rng.pick(&szs) };
        fmt_case(&mut c, ty, &a, s);
    }
    c.finish("each case formats one message into one buffer of random content with canaries around it; non-trivial: distinct (message, size) pairs; sizes around the encoded length, 1024 and 0", "messages up to about 10000 bytes")
}
pub fn c10(mut c: Ctx) -> ! {
    let n = if c.thorough { 1_500_000 } else { 100_000 };
    let szs = gen::sizes(&c);
    for i in 0..n {
        if c.done() { break; }
        let ty = if i % 3 == 0 { *c.rng.pick(gen::TYPES) } else { gen::TYPES[i % gen::TYPES.len()] };
        let k = if i < 720 { i % 340 } else { c.rng.below(6) };
        let a: Vec<Vec<u8>> = (0..k).map(|_| if k > 240 { vec![] } else if k > 20 { c.rng.bytes(i % 3) } else { gen::arg(&mut c, &szs) }).collect();
        let tail = gen::arg(&mut c, &szs);
        let mut key = ty.as_bytes().to_vec(); for x in &a { key.push(0xfe); key.extend_from_slice(x); }
        c.case(fnv(&key), k == 0, &|| format!("type {} arguments [{}] followed by {}", ty, a.iter().map(|x| show(x)).collect::<Vec<_>>().join(", "), show(&tail)), &mut || {
            let mut buf = vec![0u8; 1024 + tail.len()];
            let r = { let mut f = MessageFormatter::new(&mut buf[..1024], ty, a.len()); for x in &a { f.add_argument(&x[..]); } f.finalize() };
            let n = match r { Ok(n) => n, Err(_) => return Ok(()) };
            let mut b = buf[..n].to_vec();
            b.extend_from_slice(&tail);
            let (m, k) = Message::parse(&b).map_err(|e| format!("formatted as {}, which is rejected: {:?} at {}", show(&b), e.kind, e.offset))?;
            if k != n { return Err(format!("{} bytes written, {} parsed", n, k)); }
            if m.parsed_type().as_str() != ty { return Err(format!("type parsed as {}", m.parsed_type().as_str())); }
            let got: Vec<&[u8]> = m.arguments().collect();
            if got != a.iter().map(|x| &x[..]).collect::<Vec<_>>() { return Err("other arguments parsed".into()); }
            Ok(())
        });
    }
    c.finish("each case formats one message, appends bytes, parses and compares; non-trivial: at least one argument, distinct messages", "messages up to 1024 bytes")
}

// ---------------------------------------------------------------- typed messages
type Field = Option<Vec<u8>>;
/// what the decoder of each type makes of a message; None if it does not decode
fn decode_typed(which: usize, m: &Message) -> Option<Vec<Field>> {
    use std::os::unix::ffi::OsStrExt;
    use vt6::msg::{core as mc, posix as mp, *};
    let s = |x: &str| Some(x.as_bytes().to_vec());
    let o = |x: Option<&str>| x.map(|x| x.as_bytes().to_vec());
    match which {
        0 => Want::decode_message(m).map(|Want(x)| vec![s(x.as_str())]),
        1 => Have::decode_message(m).map(|h| match h { Have::ThisModule(v) => vec![Some(format!("{}.{}", v.module().as_str(), v.minor_version()).into_bytes()), s("V")], Have::NotThisModule(m) => vec![s(m.as_str()), s("M")] }),
        2 => Nope::decode_message(m).map(|Nope(x)| vec![s(x.as_str())]),
        3 => mc::ClientMake::decode_message(m).map(|x| vec![s(x.client_id.as_str()), o(x.stdin_screen_id), o(x.stdout_screen_id), o(x.stderr_screen_id)]),
        4 => mc::ClientNew::decode_message(m).map(|x| vec![s(x.secret)]),
        5 => mc::ClientEnd::decode_message(m).map(|x| vec![s(x.client_id.as_str())]),
        6 => mp::ClientHello::decode_message(m).map(|x| vec![s(x.secret)]),
        7 => mp::ParentHello::decode_message(m).map(|x| vec![s(x.client_secret), Some(x.server_socket_path.as_os_str().as_bytes().to_vec())]),
        8 => mp::ServerHello::decode_message(m).map(|x| vec![s(x.client_id.as_str()), o(x.stdin_screen_id), o(x.stdout_screen_id), o(x.stderr_screen_id)]),
        9 => mp::StdinHello::decode_message(m).map(|x| vec![s(x.secret)]),
        _ => mp::StdoutHello::decode_message(m).map(|x| vec![s(x.secret)]),
    }
}
fn spec_typed(which: usize, a: &[&[u8]]) -> Option<Vec<Field>> {
    let s = |x: &[u8]| Some(x.to_vec());
    let txt = |x: &[u8]| oracle::utf8_ok(x);
    let o = |x: &[u8]| if x.is_empty() { None } else { Some(x.to_vec()) };
    match which {
        0 if a.len() == 1 && oracle::module(a[0]).is_some() => Some(vec![s(a[0])]),
        1 if a.len() == 1 && oracle::modver(a[0]).is_some() => Some(vec![s(a[0]), s(b"V")]),
        1 if a.len() == 1 && oracle::module(a[0]).is_some() => Some(vec![s(a[0]), s(b"M")]),
        2 if a.len() == 1 && oracle::msgtype(a[0]) => Some(vec![s(a[0])]),
        3 | 8 if a.len() == 4 && oracle::client_id(a[0]) && txt(a[1]) && txt(a[2]) && txt(a[3]) => Some(vec![s(a[0]), o(a[1]), o(a[2]), o(a[3])]),
        4 | 6 | 9 | 10 if a.len() == 1 && txt(a[0]) => Some(vec![s(a[0])]),
        5 if a.len() == 1 && oracle::client_id(a[0]) => Some(vec![s(a[0])]),
        7 if a.len() == 2 && txt(a[0]) => Some(vec![s(a[0]), s(a[1])]),
        _ => None,
    }
}
const T11: [&str; 11] = ["want", "have", "nope", "core1.client-make", "core1.client-new", "core1.client-end", "posix1.client-hello", "posix1.parent-hello", "posix1.server-hello", "posix1.stdin-hello", "posix1.stdout-hello"];
fn field_text<'a>(f: &'a Field) -> &'a [u8] { f.as_ref().map(|v| &v[..]).unwrap_or(b"") }
/// encodes a typed message into buf; fields have been checked to be valid
fn encode_typed(which: usize, f: &[Field], buf: &mut [u8]) -> Result<usize, BufferTooSmallError> {
    use std::os::unix::ffi::OsStrExt;
    use vt6::msg::{core as mc, posix as mp, *};
    fn st<'a>(f: &'a Field) -> &'a str { std::str::from_utf8(field_text(f)).unwrap() }
    fn op<'a>(f: &'a Field) -> Option<&'a str> { f.as_ref().map(|v| std::str::from_utf8(v).unwrap()) }
    match which {
        0 => Want(ModuleIdentifier::parse(st(&f[0])).unwrap()).encode(buf),
        1 => if let Some(v) = ModuleVersion::parse(st(&f[0])) { Have::ThisModule(v).encode(buf) } else { Have::NotThisModule(ModuleIdentifier::parse(st(&f[0])).unwrap()).encode(buf) },
        2 => Nope(MessageType::parse(st(&f[0])).unwrap()).encode(buf),
        3 => mc::ClientMake { client_id: ClientID::parse(st(&f[0])).unwrap(), stdin_screen_id: op(&f[1]), stdout_screen_id: op(&f[2]), stderr_screen_id: op(&f[3]) }.encode(buf),
        4 => mc::ClientNew { secret: st(&f[0]) }.encode(buf),
        5 => mc::ClientEnd { client_id: ClientID::parse(st(&f[0])).unwrap() }.encode(buf),
        6 => mp::ClientHello { secret: st(&f[0]) }.encode(buf),
        7 => mp::ParentHello { client_secret: st(&f[0]), server_socket_path: std::path::Path::new(std::ffi::OsStr::from_bytes(field_text(&f[1]))) }.encode(buf),
        8 => mp::ServerHello { client_id: ClientID::parse(st(&f[0])).unwrap(), stdin_screen_id: op(&f[1]), stdout_screen_id: op(&f[2]), stderr_screen_id: op(&f[3]) }.encode(buf),
        9 => mp::StdinHello { secret: st(&f[0]) }.encode(buf),
        _ => mp::StdoutHello { secret: st(&f[0]) }.encode(buf),
    }
}
pub fn c11(mut c: Ctx) -> ! {
    let n = if c.thorough { 3_000_000 } else { 200_000 };
    let szs = gen::sizes(&c);
    let pool: Vec<&str> = vec!["core1", "posix1", "core1.0", "core2.17", "foo65535.65535", "foo65536", "want", "have", "nope", "core1.set", "core1.client-make", "a", "A1", "client1", "a-b", "", "t", "0", "scr", "\u{e9}", "/tmp/x", "a.b", "core1.x.y", "core01", "core1.00", "Core1"];
    for i in 0..n {
        if c.done() { break; }
        let which = i % 11;
        let ty: &str = if c.rng.chance(1, 12) { *c.rng.pick(gen::TYPES) } else { T11[which] };
        let want_k = match which { 3 | 8 => 4, 7 => 2, _ => 1 };
        let k = if c.rng.chance(1, 8) { c.rng.below(6) } else { want_k };
        let mut e = vec![ty.as_bytes().to_vec()];
        for _ in 0..k { let a = match c.rng.below(4) { 0 => gen::arg(&mut c, &szs), _ => c.rng.pick(&pool).as_bytes().to_vec() }; e.push(a); }
        if k == want_k && (which == 3 || which == 8) && c.rng.chance(3, 4) { e[1] = c.rng.pick(&["a", "A1", "client1", "zz9"]).as_bytes().to_vec(); }
        let b = oracle::message(&e);
        // decoding
        c.case(fnv(&b), false, &|| format!("message {} decoded as each type", show(&b)), &mut || {
            let (m, _) = Message::parse(&b).map_err(|_| "not parsed")?;
            let args: Vec<&[u8]> = e[1..].iter().map(|x| &x[..]).collect();
            for w in 0..11 {
                let spec = if T11[w] == ty { spec_typed(w, &args) } else { None };
                let got = decode_typed(w, &m);
                if got != spec { return Err(format!("decoded as {}: {:?} instead of {:?}", T11[w], got, spec)); }
            }
            Ok(())
        });
        // encoding
        if T11[which] == ty && k == want_k {
            let args: Vec<&[u8]> = e[1..].iter().map(|x| &x[..]).collect();
            if let Some(mut f) = spec_typed(which, &args) {
                if which == 3 || which == 8 { for x in f.iter_mut().skip(1) { if x.is_none() && c.rng.chance(1, 3) { *x = Some(vec![]); } } }
                let size = match c.rng.below(5) { 0 => b.len(), 1 => b.len().saturating_sub(1 + c.rng.below(4)), 2 => c.rng.below(40), _ => b.len() + c.rng.below(2000) };
                c.case(fnv(&b) ^ (size as u64) << 20, false, &|| format!("{} with fields {:?} encoded into {} bytes", ty, f, size), &mut || {
                    let usable = size.min(1024);
                    let mut buf = vec![0x5Au8; size + 16];
                    match encode_typed(which, &f, &mut buf[8..8 + size]) {
                        Ok(n) => {
                            if b.len() > usable || n != b.len() || buf[8..8 + n] != b[..] { return Err(format!("encoded as {} instead of {}", show(&buf[8..8 + n.min(size)]), show(&b))); }
                            let (m, _) = Message::parse(&buf[8..8 + n]).map_err(|_| "not parsed")?;
                            let back = decode_typed(which, &m);
                            if back != spec_typed(which, &args) { return Err(format!("decoded back as {:?}", back)); }
                        }
                        Err(BufferTooSmallError(x)) => if b.len() <= usable || x != b.len() - usable { return Err(format!("failure with excess {} for a message of {} bytes", x, b.len())); },
                    }
                    if buf[..8] != [0x5A; 8] || buf[8 + size..] != [0x5A; 8] { return Err("written outside of the buffer".into()); }
                    Ok(())
                });
            }
        }
    }
    c.finish("each case decodes one message as all eleven types, or encodes and decodes back one typed value; non-trivial: distinct messages", "messages up to about 8000 bytes")
}
