//! Input generation shared by the searches.
use crate::ctx::*;
use crate::oracle;

pub const TYPES: &[&str] = &["want", "have", "nope", "core1.client-make", "core1.client-new", "core1.client-end", "posix1.client-hello", "posix1.parent-hello", "posix1.server-hello", "posix1.stdin-hello", "posix1.stdout-hello", "core1.set", "core1.sub", "a1.b", "_9._-", "foo65535.bar-baz", "x-y12.z_"];
pub const BAD_TYPES: &[&str] = &["", "wan", "wants", "Want", "core1", "core.set", "core1.", ".set", "core01.set", "core1.0", "core65536.x", "core1.set.x", "core1.2", "core0.set", "1.x", "-a1.b", "a1.-b", "_9.-", "a1..b", "core1.s et", "core1.set\0", "\u{e9}1.x", "a1.\u{e9}"];

pub fn sizes(c: &Ctx) -> Vec<usize> {
    let mut v: Vec<usize> = vec![0, 1, 2, 3, 8, 9, 10, 11, 12, 16, 31, 32, 33, 63, 64, 98, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 500, 511, 512, 513, 900, 980, 990, 998, 999, 1000, 1001, 1002];
    for i in c.hot_ints.iter() { if *i < 3000 { for d in 0..2 { v.push(*i as usize + d); v.push((*i as usize).saturating_sub(d)); } } }
    v
}
pub fn arg(c: &mut Ctx, sizes: &[usize]) -> Vec<u8> {
    match c.rng.below(14) {
        0 => vec![],
        1 => { let n = *c.rng.pick(sizes); let x = c.rng.u64() as u8; vec![x; n] }
        2 => { let n = *c.rng.pick(sizes); c.rng.bytes(n) }
        3 => { let n = c.rng.below(6); (0..n).map(|_| *c.rng.pick(b"{}|:,019 ")).collect() }
        4 if !c.lits.is_empty() => { let l = c.lits.clone(); c.rng.pick(&l).clone() }
        5 if !c.hot_lits.is_empty() => { let l = c.hot_lits.clone(); c.rng.pick(&l).clone() }
        6 => { let n = 1 + c.rng.below(9); (0..n).map(|_| *c.rng.pick(b"abzAZ019")).collect() }
        7 => { let n = c.rng.below(12); let s: String = (0..n).map(|_| *c.rng.pick(&['a', 'Z', '\u{e9}', '\u{20ac}', '\u{1f600}', '"', '\\', '\0', ' '])).collect(); s.into_bytes() }
        8 => oracle::message(&[&b"want"[..], b"core1"]),
        9 => { let t = *c.rng.pick(&["core1", "posix1", "core2", "core1.0", "posix1.3", "core", "foo1.65535", "foo1.65536", "foo1.00", "want", "core1.set", "/tmp/sock", "0", "t"]); t.as_bytes().to_vec() }
        10 => vec![c.rng.u64() as u8],
        11 => { let x = c.rng.u64() >> c.rng.below(64); x.to_string().into_bytes() }
        12 => { let mut v = b"s".to_vec(); for _ in 0..c.rng.below(30) { v.push(*c.rng.pick(b"abcdefXYZ_-=")) } v }
        _ => { let n = c.rng.below(20); c.rng.bytes(n) }
    }
}
pub fn elems(c: &mut Ctx, sizes: &[usize]) -> Vec<Vec<u8>> {
    let t = match c.rng.below(10) { 0 => *c.rng.pick(BAD_TYPES), _ => *c.rng.pick(TYPES) };
    let mut v = vec![t.as_bytes().to_vec()];
    let n = match c.rng.below(12) { 0 => 0, 1 => 4, 2 => { 8 + c.rng.below(8) }, 3 => 98 + c.rng.below(4), _ => c.rng.below(5) };
    if n < 50 { for _ in 0..n { v.push(arg(c, sizes)); } } else { for _ in 0..n { let k = c.rng.below(3); v.push(c.rng.bytes(k)); } }
    v
}
pub fn mutate(c: &mut Ctx, b: &mut Vec<u8>) {
    for _ in 0..1 + c.rng.below(2) {
        let i = c.rng.below(b.len() + 1);
        let x = if c.rng.chance(3, 4) { *c.rng.pick(b"{}|:,0123456789+- w.\xff") } else { c.rng.u64() as u8 };
        match c.rng.below(6) {
            0 => b.insert(i, x),
            1 => if i < b.len() { b.remove(i); },
            2 => b.truncate(i),
            3 => { let j = c.rng.below(b.len() + 1); let (i, j) = (i.min(j), i.max(j)); let t = b[i..j].to_vec(); for (k, y) in t.into_iter().enumerate() { b.insert(j + k, y); } if b.len() > 5000 { b.truncate(5000); } }
            _ => if i < b.len() { b[i] = x; } else { b.push(x); },
        }
    }
}
/// buffers for the message parser
pub fn buffers(c: &mut Ctx, each: &mut dyn FnMut(&mut Ctx, &[u8]), rounds: usize) {
    let szs = sizes(c);
    // all short buffers over a small alphabet, and all short tails behind valid beginnings
    let starts: Vec<(&[u8], usize, &[u8])> = vec![
        (b"", 4, b"{}|:,012 9"), (b"{", 5, b"{}|:,0129"), (b"{1|", 5, b"{}:,0129wa"), (b"{1|4:want", 4, b"{}|:,012w"), (b"{1|4:want,", 4, b"{}|:,012w"), (b"{2|4:want,", 5, b"{}|:,012w"),
        (b"{1|5:core1", 3, b"{}|:,012w."), (b"{3|4:want,0:,", 4, b"{}:,01a"), (b"{0|", 4, b"{}|:,014w"), (b"{2|4:nope,2:", 4, b"{},:0a\xff"),
    ];
    for (p, n, al) in starts {
        let mut stack: Vec<Vec<u8>> = vec![p.to_vec()];
        while let Some(s) = stack.pop() {
            if c.done() { return; }
            each(c, &s);
            if s.len() < p.len() + n { for &x in al { let mut t = s.clone(); t.push(x); stack.push(t); } }
        }
    }
    for x in 0..=255u8 {
        for b in &[vec![x], vec![b'{', x], vec![b'{', b'1', x], b"{1|4:want,".iter().cloned().chain(vec![x]).collect::<Vec<u8>>(), b"{1|4:want".iter().cloned().chain(vec![x, b'}']).collect(), b"{1|4".iter().cloned().chain(vec![x]).collect(), b"{2|4:want,".iter().cloned().chain(vec![x, b':', b'a', b',', b'}']).collect(), b"{2|4:want,1:".iter().cloned().chain(vec![x, b',', b'}']).collect()] { each(c, b); }
    }
    // numbers around the limits
    let mut nums: Vec<String> = vec![];
    for n in &[u64::MAX as u128, i64::MAX as u128, u32::MAX as u128, i32::MAX as u128, u16::MAX as u128, 255, u128::MAX, 999, 10_u128.pow(19), 10_u128.pow(20)] { for d in 0..40u128 { nums.push(n.saturating_sub(d).to_string()); nums.push(n.saturating_add(d).to_string()); } }
    for n in &["340282366920938463463374607431768211456", "99999999999999999999999999999999999999999999999999", "00", "01", "007", "018446744073709551615", "0000000000000000000000000"] { nums.push(n.to_string()); }
    for n in c.ints.clone() { for d in 0..3u128 { nums.push(n.saturating_add(d).to_string()); nums.push(n.saturating_sub(d).to_string()); } }
    for n in nums.iter() {
        for t in &["{@", "{@|", "{@|4:want,", "{@|4:want,}", "{1|@", "{1|@:", "{1|@:want,}", "{2|4:want,@:", "{2|4:want,@:abc,}", "{2|4:want,@", "{1|4:want,}@", "{2|4:want,@:\0", "{3|4:want,0:,@:x"] { each(c, t.replace("@", n).as_bytes()); }
    }
    // many elements
    let mut counts: Vec<usize> = vec![9, 10, 11, 99, 100, 101, 255, 256, 257, 999, 1000, 1001];
    for i in c.hot_ints.clone() { if i < 20_000 { for d in 0..3 { counts.push(i as usize + d); counts.push((i as usize).saturating_sub(d)); } } }
    for n in counts {
        let mut e: Vec<Vec<u8>> = vec![b"want".to_vec()];
        for k in 1..n { e.push(if k % 7 == 0 { vec![b'x'; k % 40] } else { vec![] }); }
        let b = oracle::message(&e);
        each(c, &b);
        each(c, &b[..b.len() - 1]);
        let mut t = b.clone(); t.pop(); t.extend_from_slice(b"0:,}"); each(c, &t);
    }
    // large elements
    let mut lens: Vec<usize> = szs.clone();
    lens.extend_from_slice(&[1023, 1024, 1025, 4095, 4096, 9999, 10000, 65535, 65536]);
    for i in c.hot_ints.clone() { if i < 200_000 { for d in 0..3 { lens.push(i as usize + d); lens.push((i as usize).saturating_sub(d)); } } }
    for n in lens {
        let b = oracle::message(&[b"core1.set".to_vec(), vec![b'{'; n], b"".to_vec(), vec![b'}'; 3]]);
        each(c, &b);
        each(c, &b[..b.len() - 1]);
        each(c, &b[..(b.len() * 2 / 3)]);
        // whole messages of that length, and tails of that length
        for k in 0..30 { if n > k + 20 { let e = oracle::message(&[b"nope".to_vec(), vec![b'a'; n - 20 - k]]); if e.len() == n { each(c, &e); } } }
        let mut t = oracle::message(&[&b"want"[..], b"core1"]); t.extend(vec![b'}'; n]); each(c, &t);
        let mut t = b"{2|4:want,".to_vec(); t.extend(vec![b'9'; n.min(3000)]); each(c, &t); t.push(b':'); each(c, &t);
    }
    for t in TYPES.iter().chain(BAD_TYPES.iter()) { each(c, &oracle::message(&[t])); each(c, &oracle::message(&[t.as_bytes(), b"x"])); }
    for l in c.lits.clone() { each(c, &l); each(c, &oracle::message(&[l.clone()])); each(c, &oracle::message(&[b"core1.set".to_vec(), l.clone()])); each(c, &oracle::message(&[b"core1.set".to_vec(), l.clone(), l.clone()])); }
    // grammar-directed, mutated, truncated, continued
    for _ in 0..rounds {
        if c.done() { return; }
        let e = elems(c, &szs);
        let mut b = oracle::message(&e);
        match c.rng.below(5) { 0 => {} 1 => { let k = c.rng.below(b.len() + 1); b.truncate(k); } 2 => { let a = arg(c, &szs); b.extend(a); } _ => mutate(c, &mut b) }
        each(c, &b);
    }
}
/// identifier-like texts
pub fn texts(c: &mut Ctx, rounds: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    let al: &[&[u8]] = &[b"a", b"Z", b"_", b"-", b"0", b"1", b"9", b".", b" ", b"\xc3\xa9", b"\xff"];
    let mut cur: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..5 { let mut nx = vec![]; for s in &cur { for a in al { nx.push([&s[..], a].concat()); } } v.extend(nx.iter().cloned()); cur = nx; }
    for x in 0..=255u8 { for p in &["", "a", "a1", "a1.", "a1.b", "a1.1", "a.", "A"] { for s in &["", "a", "1", ".b", "1.b", ".1", "z"] { v.push([p.as_bytes(), &[x], s.as_bytes()].concat()); } } }
    for ch in (0x80u32..0x3000).step_by(7).chain((0x3000..0x110000).step_by(997)) { if let Some(x) = std::char::from_u32(ch) { for p in &["", "a", "a1.", "a1"] { for s in &["", "b", "1", ".b"] { v.push(format!("{}{}{}", p, x, s).into_bytes()); } } } }
    let mut nums: Vec<String> = (0..1100u32).map(|x| x.to_string()).collect();
    for n in &[65534u64, 65535, 65536, 65537, 99999, 100000, 131071, 131073, 4294967295, 4294967296, 4294967297, 18446744073709551615, 9999, 10000, 32767, 32768, 255, 256] { nums.push(n.to_string()); }
    for n in &["", "00", "01", "001", "+1", "-1", "1a", "1-", "1_", "0x1", "1 ", " 1", "65535a", "18446744073709551617", "340282366920938463463374607431768211457"] { nums.push(n.to_string()); }
    for n in c.ints.clone() { for d in 0..2u128 { nums.push(n.saturating_add(d).to_string()); nums.push(n.saturating_sub(d).to_string()); } }
    let short: Vec<String> = nums.iter().filter(|n| n.len() != 3 && n.len() != 4 || n.as_str() == "9999").cloned().collect();
    for n in &nums { for p in &["a", "core", "_", "-", "a-b_c", "", "foo2bar"] { v.push(format!("{}{}", p, n).into_bytes()); v.push(format!("{}{}.set", p, n).into_bytes()); v.push(format!("{}{}.{}", p, n, n).into_bytes()); } v.push(format!("a1.{}", n).into_bytes()); v.push(format!("core1.x{}", n).into_bytes()); }
    for n in short.iter().step_by(3) { for m in short.iter().step_by(3) { v.push(format!("m{}.{}", n, m).into_bytes()); } }
    for n in 0..=65600u32 { v.push(format!("c{}", n).into_bytes()); v.push(format!("c7.{}", n).into_bytes()); }
    for l in c.lits.clone() { for p in &["", "a", "a1.", "1"] { for s in &["", "1", ".x", "1.0"] { v.push([p.as_bytes(), &l, s.as_bytes()].concat()); } } }
    let mut lens = vec![10usize, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 4096, 10_000, 65536];
    for i in c.hot_ints.clone() { if i < 100_000 { for d in 0..2 { lens.push(i as usize + d); lens.push((i as usize).saturating_sub(d)); } } }
    for n in lens { let a = "a".repeat(n); for s in &["", "1", "1.b", "1.0", "-", "_", ".", "0"] { if n > 12_000 && s.starts_with('1') { continue; /* the parser takes quadratic time on long module names */ } v.push(format!("{}{}", a, s).into_bytes()); } v.push(format!("a1.{}", a).into_bytes()); v.push(format!("a1.{}", "1".repeat(n)).into_bytes()); v.push(format!("a{}", "1".repeat(n)).into_bytes()); }
    v.extend(TYPES.iter().chain(BAD_TYPES.iter()).map(|s| s.as_bytes().to_vec()));
    for _ in 0..rounds {
        let mut s = vec![];
        for _ in 0..1 + c.rng.below(4) { let w = *c.rng.pick(&["a", "core", "x-y", "_", "Z9", "want", "nope", "-", "b_c"]); s.extend_from_slice(w.as_bytes()); }
        if c.rng.chance(3, 4) { let k = (c.rng.u64() >> (44 + c.rng.below(20))) as u32; s.extend(k.to_string().into_bytes()); }
        if c.rng.chance(3, 4) { s.push(b'.'); if c.rng.chance(1, 2) { let k = (c.rng.u64() >> (44 + c.rng.below(20))) as u32; s.extend(k.to_string().into_bytes()); } else { let w = *c.rng.pick(&["set", "x-y", "_", "client-make", "Q"]); s.extend_from_slice(w.as_bytes()); } }
        if c.rng.chance(1, 3) { mutate(c, &mut s); }
        v.push(s);
    }
    v
}
