//! C20
use crate::ctx::*;
use crate::gen;
use crate::oracle;
use std::os::raw::{c_int, c_void};
use std::os::unix::ffi::OsStrExt;
use vt6::client::{Environment, EnvironmentError};

fn sys(r: i64, what: &str) -> i64 { if r < 0 { panic!("{}: {}", what, std::io::Error::last_os_error()) } else { r } }
/// what is on descriptor 60
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fd { Pieces, Closed, NotReadable, Directory, NeverEnding }

/// puts a socket on descriptor 60 that delivers exactly these pieces, one per read
fn prepare(fd: Fd, pieces: &[&[u8]]) -> c_int {
    unsafe {
        libc::close(60);
        match fd {
            Fd::Closed => return -1,
            Fd::NotReadable => { let e = sys(libc::epoll_create1(0) as i64, "epoll") as c_int; sys(libc::dup2(e, 60) as i64, "dup2"); libc::close(e); return -1; }
            Fd::Directory => { let e = sys(libc::open(b"/\0".as_ptr() as *const _, libc::O_RDONLY) as i64, "open") as c_int; sys(libc::dup2(e, 60) as i64, "dup2"); libc::close(e); return -1; }
            _ => {}
        }
        let mut p = [0 as c_int; 2];
        sys(libc::socketpair(libc::AF_UNIX, libc::SOCK_SEQPACKET, 0, p.as_mut_ptr()) as i64, "socketpair");
        let size: c_int = 1 << 20;
        libc::setsockopt(p[0], libc::SOL_SOCKET, libc::SO_SNDBUF, &size as *const _ as *const c_void, 4);
        for x in pieces { sys(libc::send(p[0], x.as_ptr() as *const c_void, x.len(), libc::MSG_NOSIGNAL | libc::MSG_DONTWAIT) as i64, "send"); }
        sys(libc::dup2(p[1], 60) as i64, "dup2");
        libc::close(p[1]);
        if fd == Fd::NeverEnding {
            // further reads fail with EAGAIN
            let fl = libc::fcntl(60, libc::F_GETFL);
            libc::fcntl(60, libc::F_SETFL, fl | libc::O_NONBLOCK);
            return p[0];
        }
        libc::close(p[0]);
        -1
    }
}
fn hello(b: &[u8]) -> Option<Vec<u8>> {
    let (_, e) = oracle::parse(b).ok()?;
    if e.len() != 3 || &b[e[0].0..e[0].1] != b"posix1.parent-hello" || !oracle::utf8_ok(&b[e[1].0..e[1].1]) { return None; }
    Some(b[e[2].0..e[2].1].to_vec())
}
fn check(fd: Fd, pieces: &[&[u8]]) -> Result<(), String> {
    let peer = prepare(fd, pieces);
    let r = Environment::discover();
    if peer >= 0 { unsafe { libc::close(peer); } }
    let all: Vec<u8> = pieces.concat();
    let w = &all[..all.len().min(1024)];
    match fd {
        Fd::Directory => return match r { Err(e) if e.raw_os_error() == Some(libc::EISDIR) => Ok(()), Err(e) => Err(format!("the read error EISDIR became {}", e)), Ok(_) => Err("a read error is not reported".into()) },
        Fd::NeverEnding => {
            let unfinished = all.len() < 1024 && matches!(oracle::parse(w), Err((oracle::Kind::Eof, _)));
            if unfinished { return match r { Err(e) if e.raw_os_error() == Some(libc::EAGAIN) => Ok(()), Err(e) => Err(format!("the read error EAGAIN became {}", e)), Ok(_) => Err("a read error after an incomplete message is not reported".into()) }; }
        }
        _ => {}
    }
    let env = r.map_err(|e| format!("discover() fails: {}", e))?;
    for _ in 0..2 {
        let got = env.parse();
        if fd == Fd::Closed || fd == Fd::NotReadable {
            match got { Err(EnvironmentError::NoVT6Terminal) => continue, Err(e) => return Err(format!("no terminal is reported as: {}", e)), Ok(_) => return Err("an environment without a terminal".into()) }
        }
        match (got, oracle::parse(w), hello(w)) {
            (Ok(e), _, Some(p)) => if e.server_socket_path().as_os_str().as_bytes() != &p[..] { return Err(format!("socket path {}", show(e.server_socket_path().as_os_str().as_bytes()))); },
            (Ok(e), _, None) => return Err(format!("not a parent hello, but the path {} is reported", show(e.server_socket_path().as_os_str().as_bytes()))),
            (Err(EnvironmentError::InvalidParentHello(m)), Ok((_, e)), None) => {
                let t: Vec<&[u8]> = e[1..].iter().map(|x| &w[x.0..x.1]).collect();
                if m.parsed_type().as_str().as_bytes() != &w[e[0].0..e[0].1] || m.arguments().collect::<Vec<_>>() != t { return Err("the invalid parent hello carries another message".into()); }
            }
            (Err(EnvironmentError::CorruptParentHello(e)), Err((k, o)), None) => { if crate::p_msg::kind(&e.kind) != k || e.offset > w.len() || (k == oracle::Kind::Eof && e.offset != o) { return Err(format!("parse error {:?} at {} instead of {:?} at {}", e.kind, e.offset, k, o)); } }
            (Err(e), p, h) => return Err(format!("reported as {}, but the message is {}, and the hello {}", e, if p.is_ok() { "complete" } else { "not parseable" }, if h.is_some() { "valid" } else { "invalid" })),
        }
    }
    Ok(())
}
pub fn c20(mut c: Ctx) -> ! {
    // whole streams
    let mut streams: Vec<Vec<u8>> = vec![vec![], b"{".to_vec(), b"x".to_vec()];
    let secrets: Vec<Vec<u8>> = vec![b"".to_vec(), b"s".to_vec(), b"sikrit".to_vec(), b"\xff".to_vec(), "\u{e4}".into(), b"{3|".to_vec()];
    let paths: Vec<Vec<u8>> = vec![b"".to_vec(), b"/run/vt6/42".to_vec(), b"\xff\xfe".to_vec(), b"/a}b,{".to_vec(), b"/run/../x//y/".to_vec(), b"a\0b".to_vec()];
    for s in &secrets { for p in &paths { streams.push(oracle::message(&[&b"posix1.parent-hello"[..], s, p])); } }
    for n in [900usize, 960, 970, 975, 976, 977, 978, 979, 980, 981, 982, 983, 984, 985, 986, 987, 988, 989, 990, 991, 992, 993, 994, 995, 1000, 1024, 1100, 2000] {
        streams.push(oracle::message(&[&b"posix1.parent-hello"[..], b"s", &vec![b'p'; n]]));
        streams.push(oracle::message(&[&b"want"[..], &vec![b'p'; n]]));
    }
    for t in ["posix1.parent-hello", "posix1.client-hello", "posix2.parent-hello", "core1.client-make", "want", "posix1.parent-hell", "posix1.parent-hello2", "posix1.Parent-hello", "nope"] {
        for k in 0..5usize { let mut e: Vec<&[u8]> = vec![t.as_bytes()]; for _ in 0..k { e.push(b"abc"); } streams.push(oracle::message(&e)); }
    }
    let szs = gen::sizes(&c);
    for _ in 0..(if c.thorough { 4000 } else { 400 }) {
        let mut b = match c.rng.below(3) {
            0 => oracle::message(&gen::elems(&mut c, &szs)),
            1 => { let (s, p) = (gen::arg(&mut c, &szs), gen::arg(&mut c, &szs)); oracle::message(&[&b"posix1.parent-hello"[..], &s, &p]) }
            _ => c.rng.pick(&streams).clone(),
        };
        if c.rng.below(2) == 0 { gen::mutate(&mut c, &mut b); }
        if b.len() <= 3000 { streams.push(b); }
    }
    for s in streams {
        if c.done() { break; }
        let mut variants = vec![s.clone()];
        for tail in [&b"x"[..], b"{2|4:want,5:core1,}", b"{", b"{3|19:posix1.parent-hello,1:s,2:/b,}"] { let mut t = s.clone(); t.extend_from_slice(tail); variants.push(t); }
        let cut = c.rng.below(s.len().max(1));
        variants.push(s[..cut].to_vec());
        for (vi, v) in variants.iter().enumerate() {
            let n = v.len();
            let mut splits: Vec<Vec<usize>> = vec![vec![]];
            if vi == 0 && n < 60 { splits.push((1..n).collect()); for k in 1..n { splits.push(vec![k]); } }
            for _ in 0..(if c.thorough { 6 } else { 3 }) { let mut p: Vec<usize> = (0..1 + c.rng.below(4)).map(|_| c.rng.below(n.max(1))).filter(|x| *x > 0).collect(); p.sort(); p.dedup(); splits.push(p); }
            if n > 1024 { splits.push(vec![1023]); splits.push(vec![1024]); splits.push(vec![512, 1000]); }
            for sp in splits {
                let mut pieces: Vec<&[u8]> = vec![];
                let mut o = 0;
                for &k in &sp { pieces.push(&v[o..k]); o = k; }
                if o < n { pieces.push(&v[o..]); }
                for fd in [Fd::Pieces, Fd::NeverEnding] {
                    if fd == Fd::NeverEnding && pieces.is_empty() { continue; }
                    let key = format!("{:?}{:?}{}", fd, sp, fnv(v));
                    c.case(fnv(key.as_bytes()), v.is_empty(), &|| format!("descriptor 60 ({:?}) delivers {} in pieces cut at {:?}", fd, show(v), sp), &mut || check(fd, &pieces));
                }
            }
        }
    }
    for fd in [Fd::Closed, Fd::NotReadable, Fd::Directory] { c.case(fd as u64, false, &|| format!("descriptor 60: {:?}", fd), &mut || check(fd, &[])); }
    c.finish("each case puts a socket on descriptor 60 that delivers a byte stream in given pieces (or a closed, unreadable or failing descriptor) and compares the environment with an independent parser; non-trivial: distinct streams and splits", "streams up to 3100 bytes, all single splits of streams below 60 bytes")
}
