//! C27 C23
use crate::ctx::*;
use crate::oracle;
use std::collections::{HashMap, HashSet};
use std::fmt::Write;
use vt6::common::core::msg::*;
use vt6::common::core::*;
use vt6::server::*;

// ------------------------------------------------------------ C27
fn plain(b: u8) -> bool { matches!(b, 65..=90 | 97..=122 | 48..=57 | 46 | 95 | 45) }
fn notation<T: AsRef<[u8]>>(e: &[T]) -> Vec<u8> {
    let mut v = vec![40u8];
    v.extend_from_slice(e[0].as_ref());
    for a in &e[1..] {
        let a = a.as_ref();
        v.push(32);
        if !a.is_empty() && a.iter().all(|b| plain(*b)) { v.extend_from_slice(a); continue; }
        v.push(34);
        for &b in a {
            match b {
                9 => v.extend_from_slice(b"\\t"), 13 => v.extend_from_slice(b"\\r"), 10 => v.extend_from_slice(b"\\n"),
                34 | 39 | 92 => { v.push(92); v.push(b) }
                32..=126 => v.push(b),
                _ => { v.push(92); v.push(120); for n in &[b >> 4, b & 15] { v.push(if *n < 10 { 48 + n } else { 87 + n }) } }
            }
        }
        v.push(34);
    }
    v.push(41);
    v
}
/// a destination that takes only so many bytes
struct Once { at: usize, calls: usize, got: Vec<u8> }
impl Write for Once {
    fn write_str(&mut self, s: &str) -> std::fmt::Result { if s.is_empty() { return Ok(()); } self.calls += 1; if self.calls == self.at { return Err(std::fmt::Error); } self.got.extend_from_slice(s.as_bytes()); Ok(()) }
}
struct Small { left: usize, got: Vec<u8>, failed: bool, after: bool }
impl Write for Small {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failed { self.after = true; }
        if s.len() > self.left { self.failed = true; return Err(std::fmt::Error); }
        self.left -= s.len(); self.got.extend_from_slice(s.as_bytes()); Ok(())
    }
}
fn prints(x: &dyn std::fmt::Display, want: &[u8], small: usize) -> Result<(), String> {
    let got = x.to_string().into_bytes();
    if got != want { return Err(format!("prints as {} instead of {}", show(&got), show(want))); }
    let mut s = Small { left: small, got: vec![], failed: false, after: false };
    let r = write!(s, "{}", x);
    if !want.starts_with(&s.got) { return Err(format!("a destination that takes {} bytes gets {}", small, show(&s.got))); }
    if s.failed && r.is_ok() { return Err(format!("a destination that takes {} bytes fails, but printing {} is reported as done", small, show(want))); }
    if !s.failed && r.is_err() { return Err(format!("printing {} fails although the destination does not", show(want))); }
    let mut o = Once { at: 1 + small % 30, calls: 0, got: vec![] };
    let r1 = write!(o, "{}", x);
    if r1.is_ok() != (o.got == want) { return Err(format!("a destination that fails in its call {} gets {}, but printing is reported as {:?}", o.at, show(&o.got), r1)); }
    if r.is_ok() && s.got != want { return Err(format!("a destination that takes {} bytes gets {}", small, show(&s.got))); }
    Ok(())
}
pub fn c27(mut c: Ctx) -> ! {
    let mut list: Vec<Vec<Vec<u8>>> = vec![];
    for b in 0..=255u8 {
        list.push(vec![b"want".to_vec(), vec![b]]);
        list.push(vec![b"core1.set".to_vec(), vec![b'a', b], vec![b, b'a']]);
        list.push(vec![b"nope".to_vec(), vec![], vec![b, b], vec![b'-', b, b'.']]);
    }
    for b in 0..=255u8 { for d in &[0u8, 9, 10, 13, 32, 34, 39, 40, 41, 47, 48, 92, 97, 110, 120, 127, 128, 255] { list.push(vec![b"have".to_vec(), vec![b, *d], vec![*d, b]]); } }
    for t in crate::gen::TYPES { list.push(vec![t.as_bytes().to_vec()]); for n in 1..6usize { list.push(std::iter::once(t.as_bytes().to_vec()).chain((0..n).map(|i| vec![b'x'; i])).collect()); } }
    for a in crate::gen::TYPES.iter().chain(crate::gen::BAD_TYPES.iter()) { list.push(vec![b"want".to_vec(), a.as_bytes().to_vec()]); }
    let sizes = crate::gen::sizes(&c);
    for k in sizes.iter().cloned().chain(1000..1030) {
        let mut a = vec![b'x'; k + 1];
        list.push(vec![b"want".to_vec(), a.clone()]);
        for b in b" \"\\\n\xe9/" { for at in &[0, k / 2, k] { a[*at] = *b; list.push(vec![b"want".to_vec(), a.clone(), vec![b'-'; k]]); a[*at] = b'x'; } }
    }
    let n = if c.thorough { 1_500_000 } else { 60_000 };
    let mut seen: HashMap<Vec<u8>, Vec<u8>> = HashMap::new();
    let mut k = 0;
    while k < list.len() + n && !c.done() {
        let e = if k < list.len() { list[k].clone() } else {
            let mut e = crate::gen::elems(&mut c, &sizes);
            if !oracle::msgtype(&e[0]) { e[0] = b"want".to_vec(); }
            e
        };
        k += 1;
        let m = oracle::message(&e);
        if m.len() > 200_000 { continue; }
        let small = { let w = notation(&e).len(); match c.rng.below(4) { 0 => w, 1 => w.saturating_sub(1), _ => c.rng.below(w + 1) } };
        c.case(fnv(&m), false, &|| format!("message {}", show(&m)), &mut || {
            let (msg, _) = Message::parse(&m).map_err(|_| "does not parse")?;
            let want = notation(&e);
            prints(&msg, &want, small)?;
            let mut it = msg.arguments();
            it.next();
            if msg.to_string().as_bytes() != &want[..] { return Err("prints differently the second time".into()); }
            if m.len() < 60 { if let Some(o) = seen.insert(want.clone(), m.clone()) { if o != m { return Err(format!("prints as {}, as does {}", show(&want), show(&o))); } } }
            Ok(())
        });
    }
    let mut k = 0;
    for s in crate::gen::texts(&mut c, n) {
        if c.done() { break; }
        k += 1;
        c.case(fnv(&s) ^ 27, false, &|| format!("text {}", show(&s)), &mut || {
            let t = match std::str::from_utf8(&s) { Ok(t) => t, Err(_) => return Ok(()) };
            let small = k % (s.len() + 1);
            let f = |what: &str, x: Option<&dyn std::fmt::Display>, want: &[u8]| -> Result<(), String> { match x { Some(x) => prints(x, want, small).map_err(|e| format!("the {} {}", what, e)), None => Ok(()) } };
            macro_rules! p { ($what:expr, $x:expr) => { let x = $x; f($what, x.as_ref().map(|x| x as &dyn std::fmt::Display), &s)?; } }
            p!("client ID", ClientID::parse(t));
            p!("identifier", Identifier::parse(t));
            p!("module identifier", ModuleIdentifier::parse(t));
            p!("module version", ModuleVersion::parse(t));
            p!("scoped identifier", ScopedIdentifier::parse(t));
            p!("message type", MessageType::parse(t));
            if let (Some(x), Some((d, _, _))) = (ModuleVersion::parse(t), oracle::modver(&s)) { f("module", Some(&x.module()), &s[..d])?; }
            if let (Some(x), Some((d, _))) = (ScopedIdentifier::parse(t), oracle::scoped(&s)) { f("module", Some(&x.module()), &s[..d])?; f("member", Some(&x.member()), &s[d + 1..])?; f("name", Some(&x.module().name()), &s[..oracle::module(&s[..d]).unwrap().0])?; }
            Ok(())
        });
    }
    c.finish("each case prints one message (or one text parsed as the identifier-like types), into a string, into a destination that fails after some bytes, and into one that fails once, and compares with an independent rendering; different short messages must print differently; non-trivial: distinct inputs", "messages up to 200000 bytes")
}

// ------------------------------------------------------------ C23
fn unb64(s: &str) -> Option<Vec<u8>> {
    let t = s.trim_end_matches('=');
    if s.len() - t.len() > 2 || t.len() % 4 == 1 || (s.len() != t.len() && s.len() % 4 != 0) { return None; }
    let (mut acc, mut n, mut v) = (0u32, 0, vec![]);
    for b in t.bytes() {
        let d = match b { 65..=90 => b - 65, 97..=122 => b - 71, 48..=57 => b + 4, 45 => 62, 95 => 63, _ => return None };
        acc = (acc << 6 | d as u32) & 0xffff; n += 6;
        if n >= 8 { n -= 8; v.push((acc >> n) as u8); }
    }
    Some(v)
}
fn draw() -> Vec<String> {
    let a = ClientCredentials::generate();
    let b = ScreenCredentials::generate();
    vec![a.secret().to_string(), b.stdin_secret().to_string(), b.stdout_secret().to_string()]
}
/// makes the system call getrandom fail with EIO in this process, then asks for secrets
fn without_source() -> ! {
    let f = [libc::sock_filter { code: 0x20, jt: 0, jf: 0, k: 0 }, libc::sock_filter { code: 0x15, jt: 0, jf: 1, k: libc::SYS_getrandom as u32 },
             libc::sock_filter { code: 0x06, jt: 0, jf: 0, k: 0x0005_0000 | libc::EIO as u32 }, libc::sock_filter { code: 0x06, jt: 0, jf: 0, k: 0x7fff_0000 }];
    let p = libc::sock_fprog { len: 4, filter: f.as_ptr() as *mut _ };
    let mut x = 0u8;
    unsafe {
        if libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0 || libc::prctl(libc::PR_SET_SECCOMP, 2, &p as *const _) != 0 { std::process::exit(0) }
        if libc::syscall(libc::SYS_getrandom, &mut x as *mut u8, 1, 0) != -1 { std::process::exit(0) }
    }
    for f in &[|| vec![ClientCredentials::generate().secret().to_string()], || { let b = ScreenCredentials::generate(); vec![b.stdin_secret().to_string(), b.stdout_secret().to_string()] }] {
        if let Ok(v) = std::panic::catch_unwind(|| f()) { println!("{}", v.join(" ")); std::process::exit(77) }
    }
    std::process::exit(0)
}
pub fn c23(mut c: Ctx) -> ! {
    // as another process: print some secrets
    if std::env::var("HC_CHILD").as_deref() == Ok("2") { without_source() }
    if std::env::var("HC_CHILD").is_ok() { for _ in 0..50 { for s in draw() { println!("{}", s); } } std::process::exit(0) }
    let rounds = if c.thorough { 200_000 } else { 20_000 };
    let mut seen: HashSet<String> = HashSet::new();
    let mut parts: HashSet<u64> = HashSet::new();
    let mut decoded: Vec<Vec<Vec<u8>>> = vec![vec![]; 3];
    let names = ["client secret", "stdin secret", "stdout secret"];
    for i in 0..rounds {
        if c.done() { break; }
        c.case(i as u64, false, &|| format!("round {}", i), &mut || {
            let a = ClientCredentials::generate();
            let b = ScreenCredentials::generate();
            for (k, s) in [a.secret(), b.stdin_secret(), b.stdout_secret()].iter().enumerate() {
                let d = match unb64(s) { Some(d) => d, None => return Err(format!("the {} {} is no URL-safe base64", names[k], show(s.as_bytes()))) };
                if d.len() < 16 { return Err(format!("the {} {} holds only {} bytes", names[k], show(s.as_bytes()), d.len())); }
                if !seen.insert(s.to_string()) { return Err(format!("the {} {} was given out before", names[k], show(s.as_bytes()))); }
                // no part of it has been given out before, as text or as bytes
                if i < 20_000 {
                    let ws: HashSet<u64> = d.windows(8).chain(s.as_bytes().windows(11).filter(|w| !w.contains(&b'='))).map(fnv).collect();
                    for w in ws { if !parts.insert(w) { return Err(format!("the {} {} shares a part with another secret", names[k], show(s.as_bytes()))); } }
                }
                if decoded[k].len() < 20_000 { decoded[k].push(d); }
            }
            if a.secret() != a.clone().secret() || b.stdin_secret() != b.clone().stdin_secret() || b.stdout_secret() != b.clone().stdout_secret() { return Err("a copy has another secret".into()); }
            Ok(())
        });
    }
    // at least 128 of the bits must look like fair coins, independent of each other and of the secret before
    for k in 0..3 {
        let ds = decoded[k].clone();
        if ds.len() < 1000 { continue; }
        c.case(1 << 40 | k as u64, false, &|| format!("{} of {}s", ds.len(), names[k]), &mut || {
            let len = ds.iter().map(|d| d.len()).min().unwrap();
            let n = ds.len() as f64;
            let lim = 8.0 * n.sqrt() / 2.0; // eight standard deviations
            let bit = |d: &[u8], j: usize| d[j / 8] >> (j % 8) & 1;
            let cols: Vec<Vec<u64>> = (0..len * 8).map(|j| { let mut v = vec![0u64; (ds.len() + 63) / 64]; for (i, d) in ds.iter().enumerate() { v[i / 64] |= (bit(d, j) as u64) << (i % 64); } v }).collect();
            let count = |v: &[u64]| v.iter().map(|w| w.count_ones() as u64).sum::<u64>() as f64;
            let mut fair: Vec<usize> = vec![];
            for j in 0..len * 8 {
                if (count(&cols[j]) - n / 2.0).abs() > lim { continue; }
                let change = (1..ds.len()).filter(|i| bit(&ds[*i], j) != bit(&ds[*i - 1], j)).count() as f64;
                if (change - n / 2.0).abs() > lim { continue; }
                if fair.iter().any(|o| { let x: f64 = cols[*o].iter().zip(cols[j].iter()).map(|(a, b)| (a ^ b).count_ones() as u64).sum::<u64>() as f64; (x - n / 2.0).abs() > lim }) { continue; }
                fair.push(j);
            }
            if fair.len() < 128 { return Err(format!("only {} of {} bits vary freely", fair.len(), len * 8)); }
            Ok(())
        });
    }
    // the two secrets of one screen, and of neighbours, must not be related
    let (a, b) = (decoded[1].clone(), decoded[2].clone());
    c.case(1 << 41, false, &|| "stdin and stdout secrets".to_string(), &mut || {
        let n = a.len().min(b.len());
        if n < 1000 { return Ok(()); }
        for lag in 0..2usize { for j in 0..a[0].len().min(b[0].len()) {
            let m = n - lag;
            let same = (0..m).filter(|i| a[*i + lag].get(j) == b[*i].get(j)).count();
            if same as f64 > m as f64 / 256.0 + 8.0 * (m as f64 / 256.0).sqrt() { return Err(format!("byte {} agrees {} times in {}", j, same, m)); }
        } }
        Ok(())
    });
    for i in 0..(if c.thorough { 20 } else { 4 }) {
        c.case(1 << 42 | i, false, &|| format!("process {}", i), &mut || {
            let o = std::process::Command::new(std::env::current_exe().unwrap()).args(std::env::args().skip(1)).env("HC_CHILD", "1").env_remove("HC_TRACE").output().map_err(|e| e.to_string())?;
            let t = String::from_utf8_lossy(&o.stdout).to_string();
            if t.lines().count() != 150 { return Err(format!("another process gives out {} secrets instead of 150", t.lines().count())); }
            for l in t.lines() { if !seen.insert(l.to_string()) { return Err(format!("another process was given {}, too", l)); } }
            Ok(())
        });
    }
    c.case(1 << 43, false, &|| "a process in which the system call getrandom fails".to_string(), &mut || {
        let o = std::process::Command::new(std::env::current_exe().unwrap()).args(std::env::args().skip(1)).env("HC_CHILD", "2").env_remove("HC_TRACE").output().map_err(|e| e.to_string())?;
        if o.status.code() == Some(77) { return Err(format!("is given the secrets {}", show(&o.stdout))); }
        Ok(())
    });
    c.finish("each round generates a client's and a screen's credentials, and checks alphabet, length and that neither it nor 8 bytes of it were given out before, here or in another process; then at least 128 bits must be balanced, change from one secret to the next half of the time and be pairwise uncorrelated (8 standard deviations), and a screen's two secrets must agree in no byte more often than by chance; with a failing system call no secret may come out", "20000 rounds (thorough 200000), statistics over the first 20000 secrets of each kind")
}
