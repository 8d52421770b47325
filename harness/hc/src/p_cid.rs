//! C12 C13 C21
use crate::ctx::*;
use crate::oracle;
use std::collections::HashMap;
use vt6::client::core::*;
use vt6::common::core::*;
use vt6::server::*;

fn text(base: &str, s: ClientIDSuffix) -> Result<Vec<u8>, String> {
    let b = ClientID::parse(base).unwrap();
    let r = s.below(b);
    if r.base().as_str() != base || r.suffix() != s { return Err("base() or suffix() differ".into()); }
    let n = r.get_size();
    if n > 400_000_000 { return Err(format!("announced size {}", n)); }
    let mut buf = vec![0xA5u8; n + 16];
    r.encode(&mut buf[8..8 + n]);
    let t = buf[8..8 + n].to_vec();
    let mut buf2 = vec![0u8; n];
    r.encode(&mut buf2);
    if t != buf2 { return Err("the buffer is not completely written".into()); }
    if !oracle::client_id(&t) { return Err(format!("{} is not a valid client ID", show(&t))); }
    if !t.starts_with(base.as_bytes()) { return Err(format!("{} does not start with the base", show(&t))); }
    if (t.len() == base.len()) != (s == ClientIDSuffix::Own) { return Err(format!("{} equals the base", show(&t))); }
    Ok(t)
}
pub fn c12(mut c: Ctx) -> ! {
    use ClientIDSuffix::*;
    let mut idx: Vec<u32> = (0..(if c.thorough { 6000 } else { 2500 })).collect();
    for k in 12..=(if c.thorough { 22 } else { 19 }) { for d in 0..3u32 { idx.push((1u32 << k) + d); idx.push((1u32 << k) - d); } }
    for k in 1..700u32 { let m = 61 * 13 * k; for d in 0..3 { idx.push(m - d); } }
    for i in c.ints.clone() { if i < 2_000_000 { for d in 0..3 { idx.push(i as u32 + d); idx.push((i as u32).saturating_sub(d)); } } }
    idx.sort(); idx.dedup();
    let base = "b0";
    // (text -> suffix) for locals, jobs, own
    let mut map: HashMap<Vec<u8>, ClientIDSuffix> = HashMap::new();
    let mut all: Vec<ClientIDSuffix> = vec![Own];
    for &i in &idx { all.push(Local(i)); all.push(Job(i)); }
    for s in all {
        c.case(fnv(format!("{:?}", s).as_bytes()), false, &|| format!("suffix {:?} below {}", s, base), &mut || {
            let t = text(base, s)?;
            if let Some(o) = map.insert(t.clone(), s) { return Err(format!("{:?} has the same ID {}", o, show(&t))); }
            Ok(())
        });
        if c.done() { break; }
    }
    // no local or job is a prefix of another
    let mut v: Vec<(&Vec<u8>, &ClientIDSuffix)> = map.iter().filter(|x| *x.1 != Own).collect();
    v.sort_by(|a, b| a.0.cmp(b.0));
    for w in v.windows(2) {
        c.case(fnv(w[1].0) ^ 7, false, &|| format!("{:?} and {:?} below {}", w[0].1, w[1].1, base), &mut || if w[1].0.starts_with(w[0].0) { Err(format!("{} is a prefix of {}", show(w[0].0), show(w[1].0))) } else { Ok(()) });
    }
    // children
    let small: Vec<u32> = idx.iter().cloned().filter(|i| *i < 3000).collect();
    let mut seen: HashMap<Vec<u8>, ClientIDSuffix> = HashMap::new();
    let mut pairs = vec![];
    for i in 0..130u32 { for j in 0..130u32 { pairs.push((i, j)); } }
    for _ in 0..(if c.thorough { 400_000 } else { 25_000 }) { let i = *c.rng.pick(&small); let j = *c.rng.pick(&small); pairs.push((i, j)); }
    pairs.sort(); pairs.dedup();
    for (i, j) in pairs {
        if c.done() { break; }
        let s = Child(i, j);
        c.case(fnv(format!("{:?}", s).as_bytes()), false, &|| format!("suffix {:?} below {}", s, base), &mut || {
            let t = text(base, s)?;
            if let Some(o) = map.get(&t) { return Err(format!("{:?} has the same ID {}", o, show(&t))); }
            if let Some(o) = seen.insert(t.clone(), s) { return Err(format!("{:?} has the same ID {}", o, show(&t))); }
            let mut own = false;
            for k in base.len() + 1..t.len() {
                if let Some(o) = map.get(&t[..k]) { if *o == Job(i) { own = true; } else { return Err(format!("{} is below {:?}", show(&t), o)); } }
            }
            if !own && idx.binary_search(&i).is_ok() { return Err(format!("{} is not below its job", show(&t))); }
            Ok(())
        });
    }
    // other bases
    for b in &["a", "0", "Z9z", "zz", &"q".repeat(300)] { for s in &[Own, Local(0), Job(0), Local(60), Job(61), Child(3, 77), Child(61, 61), Local(5000)] { c.case(fnv(format!("{}{:?}", b, s).as_bytes()), false, &|| format!("suffix {:?} below {}", s, b), &mut || { let t = text(b, *s)?; let r = text(base, *s)?; if t[b.len()..] != r[base.len()..] { return Err("the suffix text depends on the base".into()); } Ok(()) }); } }
    // extreme indexes
    let big = [u32::MAX, u32::MAX - 1, u32::MAX - 61, 1 << 31];
    for s in &[Local(big[0]), Job(big[0]), Child(0, big[0]), Child(big[0], 0), Job(big[1]), Local(big[2]), Child(1, big[3])] {
        if c.done() { break; }
        c.case(fnv(format!("{:?}", s).as_bytes()), false, &|| format!("suffix {:?} below {}", s, base), &mut || text(base, *s).map(|_| ()));
    }
    c.finish("each case encodes one suffix (or compares neighbours in the sorted list of IDs); non-trivial: all; suffixes: small indexes, powers of two, multiples of 61, numbers in the source, extreme indexes", "prefix and collision checks over indexes up to 2000000")
}
pub fn c13(mut c: Ctx) -> ! {
    let n = if c.thorough { 5_000_000 } else { 400_000 };
    let mut ids: Vec<String> = vec![];
    let al = ['a', 'A', '0', 'z'];
    let mut cur = vec![String::new()];
    for _ in 0..4 { let mut nx = vec![]; for s in &cur { for a in &al { nx.push(format!("{}{}", s, a)); } } ids.extend(nx.iter().cloned()); cur = nx; }
    for l in c.lits.clone() { if oracle::client_id(&l) { ids.push(String::from_utf8(l).unwrap()); } }
    let mut one = |c: &mut Ctx, a: &str, b: &str| {
        c.case(fnv(format!("{} {}", a, b).as_bytes()), false, &|| format!("selectors for {:?} and the client {:?}", a, b), &mut || {
            let (x, y) = (ClientID::parse(a).unwrap(), ClientID::parse(b).unwrap());
            let pre = b.len() >= a.len() && &b.as_bytes()[..a.len()] == a.as_bytes();
            if ClientSelector::AtOrBelow(x).contains(y) != pre { return Err(format!("at-or-below says {}", !pre)); }
            if ClientSelector::StrictlyBelow(x).contains(y) != (pre && a != b) { return Err(format!("strictly-below says {}", !(pre && a != b))); }
            Ok(())
        });
    };
    for a in ids.iter() { for b in ids.iter() { one(&mut c, a, b); } if c.done() { break; } }
    let mut lens = vec![5usize, 8, 16, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000];
    for i in c.hot_ints.clone() { if i < 20_000 { for d in 0..2 { lens.push(i as usize + d + 1); lens.push((i as usize).saturating_sub(d).max(1)); } } }
    for l in lens { let a = "k".repeat(l); for b in &[a.clone(), a.clone() + "0", a.clone() + "k", a[..l - 1].to_string(), a[..l - 1].to_string() + "j", a[..l - 1].to_string() + "K", format!("j{}", &a[1..])] { if !b.is_empty() { one(&mut c, &a, b); one(&mut c, b, &a); } } }
    // differences in length near and at multiples of machine sizes
    for k in &[1usize, 2, 7, 300] { for m in &[63usize, 127, 128, 255, 256, 512, 768, 1024, 4096, 32768, 65535, 65536, 131072] { for d in &[0usize, 1, 2] { let a = "k".repeat(*k); let b = "k".repeat(k + m + d - 1); one(&mut c, &a, &b); one(&mut c, &b, &a); } } }
    for _ in 0..n {
        if c.done() { break; }
        let k = 1 + c.rng.below(12);
        let a: String = (0..k).map(|_| *c.rng.pick(b"abzABZ019") as char).collect();
        let mut b = a.clone();
        match c.rng.below(6) { 0 => {} 1 => { let m = 1 + c.rng.below(4); for _ in 0..m { b.push(*c.rng.pick(b"abzABZ019") as char); } } 2 => { let m = 1 + c.rng.below(k); b.truncate(m); } 3 => { let i = c.rng.below(k); let x = *c.rng.pick(b"abzABZ019") as char; b.replace_range(i..i + 1, &x.to_string()); } 4 => { let i = c.rng.below(k); let x = b.as_bytes()[i]; let y = if x.is_ascii_lowercase() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() }; b.replace_range(i..i + 1, &(y as char).to_string()); b.push('x'); } _ => b = format!("x{}", a) }
        one(&mut c, &a, &b);
    }
    c.finish("each case asks both selectors about one pair of client IDs; non-trivial: distinct pairs; all pairs of IDs up to 4 characters of 4, long ones, random pairs with prefix relations", "IDs up to 131373 characters")
}
pub fn c21(mut c: Ctx) -> ! {
    let n = if c.thorough { 1_000_000 } else { 100_000 };
    let mut pool: Vec<String> = vec!["".into(), "a".into(), "screen1".into(), "\u{e9}\u{1f600}".into(), "x".repeat(1000), "none".into(), "\0".into()];
    for l in c.lits.clone() { if let Ok(s) = String::from_utf8(l) { pool.push(s); } }
    for i in 0..n {
        if c.done() { break; }
        let id = format!("c{}", i % 977);
        let k = c.rng.below(7);
        let ops: Vec<(usize, String)> = (0..k).map(|_| (c.rng.below(3), c.rng.pick(&pool).clone())).collect();
        c.case(fnv(format!("{}{:?}", id, ops).as_bytes()), k == 0, &|| format!("client {} with {:?} (0 = stdin, 1 = stdout, 2 = stderr)", id, ops), &mut || {
            let mut x = ClientIdentity::new(&ClientID::parse(&id).unwrap());
            let mut w: [Option<&str>; 3] = [None; 3];
            for (o, s) in &ops { w[*o] = Some(s); x = match o { 0 => x.with_stdin(s), 1 => x.with_stdout(s), _ => x.with_stderr(s) }; }
            for y in &[x.clone(), x] {
                if y.client_id().as_str() != id { return Err(format!("client ID {}", y.client_id().as_str())); }
                let g = [y.stdin_screen_id(), y.stdout_screen_id(), y.stderr_screen_id()];
                if g != w { return Err(format!("reports {:?} instead of {:?}", g, w)); }
            }
            Ok(())
        });
        let (a, b) = (c.rng.pick(&pool).clone(), c.rng.pick(&pool).clone());
        c.case(fnv(format!("{:?}{:?}", a, b).as_bytes()), false, &|| format!("screens {:?} and {:?}", a, b), &mut || {
            let (x, y) = (ScreenIdentity::new(&a), ScreenIdentity::new(&b));
            if x.screen_id() != a || x.clone().screen_id() != a { return Err(format!("reports {:?}", x.screen_id())); }
            if (x == y) != (a == b) || (x != y) != (a != b) { return Err("equality differs from that of the IDs".into()); }
            Ok(())
        });
    }
    c.finish("each case builds one client identity with a sequence of builder calls, or compares two screen identities; non-trivial: at least one builder call", "up to 6 builder calls")
}
