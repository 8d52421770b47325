//! C14, C22: a server with one runtime thread on a socket in a scratch directory
use crate::ctx::*;
use crate::oracle::{self, Kind};
use std::io::{Read, Write};
use std::os::unix::io::AsRawFd;
use std::os::unix::net::UnixStream;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vt6::common::core::msg::{Message, ParseError};
use vt6::common::core::{ClientID, ModuleIdentifier};
use vt6::server::{self, Application, ClientCredentials, ClientIdentity, ClientSelector, Connection, ConnectionState, Dispatch, Handler, HandlerError, Notification, ScreenIdentity};

type B = Vec<u8>;
#[derive(Clone, Debug, PartialEq)]
enum Ev { Opened, Closed, IoError, Discarded(B), Handled(Vec<B>), HandledErr, Out(B), Enq(usize), Ran(usize, String) }
static LOG: Mutex<Vec<Ev>> = Mutex::new(vec![]);
fn log(e: Ev) { LOG.lock().unwrap().push(e) }

pub struct MsgConn { id: ClientIdentity }
impl server::MessageConnector for MsgConn {
    fn new(id: ClientIdentity) -> Self { MsgConn { id } }
    fn identity(&self) -> &ClientIdentity { &self.id }
}
pub struct OutConn;
impl server::StdoutConnector for OutConn {
    fn new(_: ScreenIdentity) -> Self { OutConn }
    fn receive(&mut self, b: &[u8]) { log(Ev::Out(b.to_vec())) }
}
/// a broadcast: its number; which client it tears down; which broadcast it enqueues, when run on which client
#[derive(Clone, Debug)]
struct Bc { n: usize, victim: Option<String>, then: Option<(String, Box<Bc>)> }
#[derive(Default)]
struct Shared { scripts: Vec<Vec<Bc>>, on_close: Vec<Bc>, dispatch: Option<server::tokio::Dispatch<App>> }
#[derive(Clone)]
pub struct App(Arc<Mutex<Shared>>);
fn enqueue<D: Dispatch<App>>(d: &D, b: Bc) {
    log(Ev::Enq(b.n));
    d.enqueue_broadcast(Box::new(move |c| {
        let name = name(c);
        log(Ev::Ran(b.n, name.clone()));
        if let Some((ref w, ref x)) = b.then { if *w == name { let d = c.dispatch(); enqueue(&d, (**x).clone()); } }
        if b.victim.as_ref() == Some(&name) { c.set_state(ConnectionState::Teardown); }
    }));
}
impl Application for App {
    type MessageConnector = MsgConn;
    type StdoutConnector = OutConn;
    type MessageHandler = Test;
    type HandshakeHandler = Test;
    fn notify(&self, n: &Notification) {
        match n {
            Notification::ConnectionOpened => log(Ev::Opened),
            Notification::ConnectionClosed => {
                log(Ev::Closed);
                let (l, d) = { let mut s = self.0.lock().unwrap(); (std::mem::replace(&mut s.on_close, vec![]), s.dispatch.clone()) };
                if let Some(d) = d { for b in l { enqueue(&d, b); } }
            }
            Notification::ConnectionIOError(_) => log(Ev::IoError),
            Notification::IncomingBytesDiscarded(b) => log(Ev::Discarded(b.to_vec())),
        }
    }
    fn register_client(&self, _: ClientIdentity) -> ClientCredentials { ClientCredentials::generate() }
    fn unregister_clients(&self, _: ClientSelector) {}
    fn has_clients(&self, _: ClientSelector) -> bool { false }
    fn authorize_client(&self, _: &str) -> Option<ClientIdentity> { None }
    fn find_client(&self, _: ClientID<'_>) -> Option<ClientIdentity> { None }
    fn authorize_stdin(&self, _: &str) -> Option<ScreenIdentity> { None }
    fn authorize_stdout(&self, _: &str) -> Option<ScreenIdentity> { None }
}
fn client(n: &str) -> ConnectionState<App> { ConnectionState::Msgio(MsgConn { id: ClientIdentity::new(&ClientID::parse(n).unwrap()) }) }
fn name<D: Dispatch<App>>(c: &mut Connection<App, D>) -> String { c.message_connector().map(|m| server::MessageConnector::identity(m).client_id().as_str().to_string()).unwrap_or_else(|| if matches!(c.state(), ConnectionState::Teardown) { "(in teardown)".into() } else { "?".into() }) }
fn ack<D: Dispatch<App>>(c: &mut Connection<App, D>) { let n = name(c); c.enqueue_message(&vt6::msg::core::ClientNew { secret: &n }) }
#[derive(Default)] pub struct Test;
impl Handler<App> for Test {
    fn handle<D: Dispatch<App>>(&self, msg: &Message, c: &mut Connection<App, D>) -> Result<(), HandlerError> {
        let mut e: Vec<B> = vec![msg.parsed_type().as_str().as_bytes().to_vec()];
        for a in msg.arguments() { e.push(a.to_vec()); }
        log(Ev::Handled(e.clone()));
        match &e[0][..] {
            b"test1.hello" => { c.set_state(client(std::str::from_utf8(&e[1]).unwrap())); ack(c) }
            b"test1.bc" => {
                let k: usize = std::str::from_utf8(&e[1]).unwrap().parse().unwrap();
                let l = c.dispatch().application().0.lock().unwrap().scripts[k].clone();
                let d = c.dispatch();
                for b in l { enqueue(&d, b); }
                ack(c);
            }
            b"test1.ping" => ack(c),
            b"test1.echo" => c.enqueue_message(&vt6::msg::core::ClientNew { secret: std::str::from_utf8(&e[1]).unwrap() }),
            b"test1.flow" => {
                let n: Vec<usize> = e[1..].iter().map(|x| std::str::from_utf8(x).unwrap().parse().unwrap()).collect();
                c.set_state(ConnectionState::Stdin(ScreenIdentity::new("s1")));
                let mut at = 0;
                for k in n { let b: B = (at..at + k).map(flow).collect(); at += k; c.enqueue_stdin(&b); }
            }
            b"test1.end" => { ack(c); let d = c.dispatch().application().0.lock().unwrap().dispatch.clone(); if let Some(d) = d { d.shutdown(); } }
            b"test1.bye" => c.set_state(ConnectionState::Teardown),
            b"test1.msgio" => c.set_state(client("t1")),
            b"test1.stdin" => c.set_state(ConnectionState::Stdin(ScreenIdentity::new("s1"))),
            b"test1.stdout" => c.set_state(ConnectionState::Stdout(server::StdoutConnector::new(ScreenIdentity::new("s2")))),
            _ => {}
        }
        Ok(())
    }
    fn handle_error<D: Dispatch<App>>(&self, _: &ParseError, _: &mut Connection<App, D>) { log(Ev::HandledErr) }
}
impl server::MessageHandler<App> for Test { fn get_supported_module_version(&self, _: &ModuleIdentifier<'_>) -> Option<u16> { None } }
impl server::HandshakeHandler<App> for Test {}

struct Rig { dir: std::path::PathBuf, app: App, ctl: tokio::sync::mpsc::UnboundedSender<(Vec<Bc>, std::sync::mpsc::Sender<()>)> }
impl Rig {
    fn new() -> Rig {
        let dir = std::env::temp_dir().join(format!("vt6-hl-{}", std::process::id()));
        std::fs::create_dir(&dir).expect("scratch directory");
        let app = App(Arc::new(Mutex::new(Shared::default())));
        let path = dir.join("s");
        let d = server::tokio::Dispatch::new(path.clone(), app.clone()).expect("dispatch");
        app.0.lock().unwrap().dispatch = Some(d.clone());
        let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel::<(Vec<Bc>, std::sync::mpsc::Sender<()>)>();
        std::thread::spawn(move || {
            let rt = tokio::runtime::Builder::new_current_thread().enable_io().build().expect("runtime");
            rt.block_on(async move {
                let e = d.clone();
                // enqueues broadcasts while nobody holds any lock
                tokio::spawn(async move { while let Some((l, done)) = rx.recv().await { for b in l { enqueue(&e, b); } let _ = done.send(()); } });
                d.run_listener().await
            }).expect("listener");
        });
        for _ in 0..500 { if path.exists() { break; } std::thread::sleep(Duration::from_millis(10)); }
        Rig { dir, app, ctl: tx }
    }
    fn connect(&self) -> Result<UnixStream, String> {
        let s = crate::connect(&self.dir.join("s")).map_err(|e| format!("cannot connect: {}", e))?;
        s.set_read_timeout(Some(Duration::from_secs(15))).unwrap();
        s.set_write_timeout(Some(Duration::from_secs(15))).unwrap();
        Ok(s)
    }
    /// enqueued by a task of its own
    fn control(&self, l: Vec<Bc>) -> Result<(), String> {
        let (a, b) = std::sync::mpsc::channel();
        let _ = self.ctl.send((l, a));
        b.recv_timeout(Duration::from_secs(15)).map_err(|_| "the server does not come back".to_string())
    }
}
impl Drop for Rig { fn drop(&mut self) { let _ = std::fs::remove_file(self.dir.join("s")); let _ = std::fs::remove_dir(&self.dir); } }
fn gone(s: &mut UnixStream) -> Result<(), String> {
    let mut b = [0u8; 4096];
    loop {
        match s.read(&mut b) {
            Ok(0) => return Ok(()),
            Ok(_) => {}
            Err(ref e) if e.kind() == std::io::ErrorKind::ConnectionReset => return Ok(()),
            Err(e) => return Err(format!("the connection is not closed: {}", e)),
        }
    }
}
/// nobody reads any more what the client writes
fn closed(s: &mut UnixStream) -> Result<(), String> {
    let t = std::time::Instant::now();
    while t.elapsed() < Duration::from_secs(10) {
        if s.write_all(b"{}").is_err() { return Ok(()); }
        std::thread::yield_now();
    }
    Err("the server still receives what it sends".into())
}
/// all that was written has been read by the server
fn drained(s: &UnixStream) {
    for k in 0..20000 {
        let mut n: libc::c_int = 0;
        if unsafe { libc::ioctl(s.as_raw_fd(), libc::TIOCOUTQ, &mut n) } != 0 || n == 0 { return; }
        if k > 20 { std::thread::sleep(Duration::from_micros(50)); } else { std::thread::yield_now(); }
    }
}

// ---------------------------------------------------------------- C14
#[derive(PartialEq)] enum St { Talk, Hs, In, Out, Gone }
fn feed(st: &mut St, b: &[u8], out: &mut Vec<Ev>) -> usize {
    let mut o = 0;
    while o < b.len() {
        let x = &b[o..];
        match st {
            St::Gone => break,
            St::In => { *st = St::Gone; out.push(Ev::Discarded(x.to_vec())); o = b.len(); continue; }
            St::Out => { out.push(Ev::Out(x.to_vec())); o = b.len(); continue; }
            _ => {}
        }
        match oracle::parse(x) {
            Err((Kind::Eof, _)) => break,
            Err(_) => {
                out.push(Ev::HandledErr);
                let k = x[1..].iter().position(|c| *c == b'{').map(|k| k + 1).unwrap_or(x.len());
                out.push(Ev::Discarded(x[..k].to_vec()));
                if *st == St::Hs { *st = St::Gone; }
                o += k;
            }
            Ok((n, e)) => {
                let m: Vec<B> = e.iter().map(|y| x[y.0..y.1].to_vec()).collect();
                o += n;
                match &m[0][..] { b"test1.msgio" => *st = St::Talk, b"test1.stdin" => *st = St::In, b"test1.stdout" => *st = St::Out, b"test1.bye" => *st = St::Gone, _ => {} }
                out.push(Ev::Handled(m));
            }
        }
    }
    o
}
/// neighbouring pieces of output or of discarded input are one
fn merged(l: &[Ev]) -> Vec<Ev> {
    let mut r: Vec<Ev> = vec![];
    for e in l {
        match (r.last_mut(), e) {
            (Some(Ev::Out(a)), Ev::Out(b)) | (Some(Ev::Discarded(a)), Ev::Discarded(b)) => { a.extend_from_slice(b); continue; }
            _ => {}
        }
        r.push(e.clone());
    }
    r
}
/// one connection that sends a stream in pieces
fn stream(c: &mut Ctx, rig: &Rig) {
    let m = |e: &[&[u8]]| oracle::message(e);
    let pieces: Vec<B> = vec![m(&[b"test1.ok"]), m(&[b"test1.ok", b"}{"]), m(&[b"test1.ok", b"", b"\xff\0"]), m(&[b"want", b"core1"]), m(&[b"have"]), m(&[b"a1.b", b"{1|4:want,}"]), m(&[b"test1.bye"]), m(&[b"test1.stdin"]), m(&[b"test1.stdout"]),
        m(&[b"test1.ok", &[b'y'; 1000]]), m(&[b"test1.ok", &[b'z'; 3000]]), b"x".to_vec(), b"{".to_vec(), b"}".to_vec(), b"{{".to_vec(), b"{x".to_vec(), b"junk junk".to_vec(), b"{2|4:want,".to_vec(), b"{01|".to_vec()];
    let hs = c.rng.chance(1, 8);
    let mut b: B = if hs { vec![] } else { m(&[b"test1.msgio"]) };
    for _ in 0..c.rng.below(9) { let k = if c.rng.chance(3, 5) { c.rng.below(6) } else { c.rng.below(pieces.len()) }; b.extend_from_slice(&pieces[k]); }
    if c.rng.chance(1, 10) { for _ in 0..c.rng.below(200) { b.extend_from_slice(&pieces[c.rng.below(3)]); } }
    if c.rng.chance(1, 4) { let n = b.len() - c.rng.below(b.len().min(30) + 1); b.truncate(n); }
    if b.is_empty() { return; }
    let mut cuts: Vec<usize> = (0..c.rng.below(5)).map(|_| c.rng.below(b.len() + 1)).collect();
    if c.rng.chance(1, 6) && b.len() < 120 { cuts = (0..b.len()).collect(); }
    cuts.push(0); cuts.push(b.len()); cuts.sort(); cuts.dedup();
    let chunks: Vec<B> = (1..cuts.len()).map(|i| b[cuts[i - 1]..cuts[i]].to_vec()).collect();
    let pause = c.rng.chance(4, 5);
    let mut key = b.clone(); for x in &cuts { key.extend_from_slice(&x.to_le_bytes()); }
    c.case(fnv(&key), false, &|| format!("a connection to the Tokio server that sends {}{}, then closes its end", chunks.iter().map(|b| show(b)).collect::<Vec<_>>().join(" then "), if pause { ", one at a time" } else { "" }), &mut || {
        LOG.lock().unwrap().clear();
        let mut s = rig.connect()?;
        for x in &chunks {
            if s.write_all(x).is_err() { break; }   // torn down
            if pause { drained(&s); }
        }
        let _ = s.shutdown(std::net::Shutdown::Write);
        gone(&mut s)?;
        let got = LOG.lock().unwrap().clone();
        let mut want = vec![Ev::Opened];
        let mut st = St::Hs;
        feed(&mut st, &b, &mut want);
        want.push(Ev::Closed);
        // how much arrives in one read is up to the system: errors are not counted, neighbouring pieces are joined;
        // what else is dropped with the connection depends on it too
        let torn = hs && want.contains(&Ev::HandledErr) || want.contains(&Ev::Handled(vec![b"test1.stdin".to_vec()]));
        let norm = |l: Vec<Ev>| merged(&l.into_iter().filter(|e| match e { Ev::HandledErr | Ev::IoError => false, Ev::Discarded(_) => !torn, _ => true }).collect::<Vec<_>>());
        let (g, w) = (norm(got), norm(want));
        if g != w { return Err(format!("observed {}, expected {}", brief(&g, &w), brief(&w, &g))); }
        Ok(())
    });
}
pub fn c14(mut c: Ctx) -> ! {
    let rig = Rig::new();
    while !c.done() { stream(&mut c, &rig); }
    drop(rig);
    c.finish("connections to a server on a Unix socket that send byte streams in given pieces and close their end; what the handlers, the output connector and the application saw is compared with an independent model; distinct streams and splits", "streams of at most a few hundred messages, one runtime thread")
}
fn brief(a: &[Ev], b: &[Ev]) -> String {
    let k = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let mut s = format!("(after {} equal events) {:?}", k, a[k..].iter().take(3).map(|e| match e { Ev::Handled(m) => format!("handled {}", m.iter().map(|x| show(&x[..x.len().min(40)])).collect::<Vec<_>>().join(" ")), Ev::Discarded(b) => format!("discarded {}", show(&b[..b.len().min(40)])), Ev::Out(b) => format!("output {} bytes {}", b.len(), show(&b[..b.len().min(40)])), x => format!("{:?}", x) }).collect::<Vec<_>>());
    if s.len() > 600 { let mut k = 600; while !s.is_char_boundary(k) { k -= 1; } s.truncate(k); }
    s
}

// ---------------------------------------------------------------- C26
fn flow(i: usize) -> u8 { (i ^ i >> 8 ^ i >> 16) as u8 }
/// wait until there is something that the client has not read
fn unread(s: &UnixStream) -> Result<(), String> {
    let t = std::time::Instant::now();
    let mut n: libc::c_int = 0;
    while unsafe { libc::ioctl(s.as_raw_fd(), libc::FIONREAD, &mut n) } == 0 && n == 0 {
        if t.elapsed() > Duration::from_secs(10) { return Err("nothing arrives".into()); }
        std::thread::yield_now();
    }
    Ok(())
}
/// Many answers of many sizes, which the client reads in pieces of its own; or it goes away without reading them.
fn echo(c: &mut Ctx, rig: &Rig) {
    let rounds = 1 + c.rng.below(3);
    let mut plan: Vec<Vec<usize>> = vec![];
    for _ in 0..rounds { let n = match c.rng.below(4) { 0 => 1, 1 => 1 + c.rng.below(5), 2 => 1 + c.rng.below(39), _ => 1 + c.rng.below(699) }; let big = c.rng.chance(1, 2); plan.push((0..n).map(|_| if big { c.rng.below(950) } else { c.rng.below(20) }).collect()); }
    let flows: Vec<usize> = if c.rng.chance(1, 3) { (0..1 + c.rng.below(3)).map(|_| match c.rng.below(3) { 0 => c.rng.below(50), 1 => 4060 + c.rng.below(20), _ => { let m = if c.rng.chance(1, 6) { 6000000 } else { 300000 }; c.rng.below(m) } }).collect() } else { vec![] };
    let leave = c.rng.chance(1, 6);
    let deaf = !leave && c.rng.chance(1, 6);      // it stays, but does not receive any more
    let sizes: Vec<usize> = (0..8).map(|_| match c.rng.below(3) { 0 => 1 + c.rng.below(8), 1 => 1 + c.rng.below(4999), _ => 65536 }).collect();
    let mut key = vec![leave as u8 + 2 * deaf as u8]; for x in plan.iter().flatten().chain(&flows).chain(&sizes) { key.extend_from_slice(&x.to_le_bytes()); }
    let total: usize = plan.iter().map(|v| v.len()).sum();
    c.case(fnv(&key), false, &|| format!("{} rounds with {} answers in all{}, {}", rounds, total, if flows.is_empty() { "".into() } else { format!(" and then input in pieces of {:?} bytes", flows) }, if leave { "and the client goes away without reading them" } else if deaf { "which the client reads; then it shuts down the direction in which it receives and asks for one more answer" } else { "which the client reads" }), &mut || {
        LOG.lock().unwrap().clear();
        let mut s = rig.connect()?;
        s.write_all(&oracle::message(&[&b"test1.msgio"[..]])).map_err(|e| format!("cannot write: {}", e))?;
        let text = |k: usize, i: usize, l: usize| -> B { (0..l).map(|j| b'a' + ((k * 7 + i * 3 + j) % 26) as u8).collect() };
        let mut read = 0;
        let mut get = |s: &mut UnixStream, want: &[u8]| -> Result<(), String> {
            let mut got: B = Vec::with_capacity(want.len());
            let mut buf = vec![0u8; 65536];
            while got.len() < want.len() {
                let n = (want.len() - got.len()).min(sizes[read % sizes.len()]); read += 1;
                let n = s.read(&mut buf[..n]).map_err(|e| format!("only {} of {} bytes arrive: {}", got.len(), want.len(), e))?;
                if n == 0 { return Err(format!("only {} of {} bytes arrive before the connection ends", got.len(), want.len())); }
                if got.len() + n > want.len() || buf[..n] != want[got.len()..got.len() + n] {
                    let k = buf[..n].iter().zip(&want[got.len()..]).take_while(|(a, b)| a == b).count();
                    return Err(format!("byte {} of {} is wrong: {} instead of {}", got.len() + k, want.len(), show(&buf[k..n.min(k + 30)]), show(&want[got.len() + k..(got.len() + k + 30).min(want.len())])));
                }
                got.extend_from_slice(&buf[..n]);
            }
            Ok(())
        };
        for (k, r) in plan.iter().enumerate() {
            let (mut out, mut want): (B, B) = (vec![], vec![]);
            for (i, l) in r.iter().enumerate() {
                let t = text(k, i, *l);
                out.extend(oracle::message(&[&b"test1.echo"[..], &t]));
                want.extend(oracle::message(&[&b"core1.client-new"[..], &t]));
            }
            s.write_all(&out).map_err(|e| format!("cannot write: {}", e))?;
            if !leave { get(&mut s, &want)?; } else { drained(&s); }
        }
        if !flows.is_empty() {
            let l: Vec<String> = flows.iter().map(|x| x.to_string()).collect();
            let mut m: Vec<&[u8]> = vec![b"test1.flow"]; for x in &l { m.push(x.as_bytes()); }
            s.write_all(&oracle::message(&m)).map_err(|e| format!("cannot write: {}", e))?;
            if !leave { get(&mut s, &(0..flows.iter().sum()).map(flow).collect::<B>())?; }
        }
        if deaf {
            let _ = s.shutdown(std::net::Shutdown::Read);
            let m = if flows.is_empty() { oracle::message(&[&b"test1.ping"[..]]) } else { vec![] };
            if m.is_empty() { let _ = s.shutdown(std::net::Shutdown::Write); } else if s.write_all(&m).is_err() { return Err("the server has closed the connection".into()); }
        }
        else if !leave { let _ = s.shutdown(std::net::Shutdown::Write); gone(&mut s)?; }
        else {      // something has arrived: what is closed then is a connection that fails
            unread(&s)?;
        }
        let keep = if deaf { Some(s) } else { drop(s); None };
        let t = std::time::Instant::now();
        let count = |x: Ev| LOG.lock().unwrap().iter().filter(|e| **e == x).count();
        while count(Ev::Closed) == 0 && t.elapsed() < Duration::from_secs(10) { std::thread::yield_now(); }
        if (count(Ev::Opened), count(Ev::Closed)) != (1, 1) { return Err(format!("{} connections opened, {} closed", count(Ev::Opened), count(Ev::Closed))); }
        let n = count(Ev::IoError);
        drop(keep);
        let fails = leave || deaf && flows.is_empty();
        if !fails && n > 0 { return Err(format!("{} failures are notified, although nothing failed", n)); }
        if fails && n == 0 { return Err("the failure of the connection is not notified".into()); }
        if n > 2 { return Err(format!("{} failures are notified for one connection", n)); }
        Ok(())
    });
}
/// C26: what the jobs carry
pub fn c26(mut c: Ctx) -> ! {
    let rig = Rig::new();
    while !c.done() { if c.rng.chance(1, 3) { stream(&mut c, &rig) } else { echo(&mut c, &rig) } }
    drop(rig);
    c.finish("connections to a server on a Unix socket: byte streams in given pieces whose effects are compared with an independent model; answers and input of many sizes that the client reads in pieces of its own, compared byte by byte; clients that go away; distinct cases", "streams of at most some hundred messages and some megabytes, one runtime thread")
}

// ---------------------------------------------------------------- C22
struct Peer { name: String, s: UnixStream, open: bool }
impl Peer {
    fn send(&mut self, m: &[&[u8]]) -> Result<(), String> { self.s.write_all(&oracle::message(m)).map_err(|e| format!("client {} cannot write: {}", self.name, e)) }
    fn ack(&mut self) -> Result<(), String> {
        let w = oracle::message(&[&b"core1.client-new"[..], self.name.as_bytes()]);
        let mut b = vec![0u8; w.len()];
        self.s.read_exact(&mut b).map_err(|e| format!("client {} gets no answer: {}", self.name, e))?;
        if b != w { return Err(format!("client {} receives {}", self.name, show(&b))); }
        Ok(())
    }
}
#[derive(Clone, Debug)]
enum Op { Handler(usize, Vec<Bc>), Task(Vec<Bc>), Leave(usize), Bye(usize), Join(usize), Rude(usize) }
fn bc_text(b: &Bc) -> String {
    let mut s = format!("broadcast {}", b.n);
    if let Some(ref v) = b.victim { s += &format!(" (tears {} down)", v); }
    if let Some((ref w, ref x)) = b.then { s += &format!(" (enqueues on {}: {})", w, bc_text(x)); }
    s
}
/// the client "?" never says who it is: it stays in the handshake, or provides input, or takes output
fn join(rig: &Rig, x: &str, mute: u64) -> Result<Peer, String> {
    LOG.lock().unwrap().clear();
    if x == "?" {
        let mut p = Peer { name: x.to_string(), s: rig.connect()?, open: true };
        let t: &[u8] = match mute % 3 { 0 => b"test1.other", 1 => b"test1.stdin", _ => b"test1.stdout" };
        p.send(&[t])?;
        let start = std::time::Instant::now();
        while !LOG.lock().unwrap().iter().any(|e| matches!(e, Ev::Handled(_))) {
            if start.elapsed() > Duration::from_secs(15) { return Err("the first message of a connection is not handled".into()); }
            std::thread::yield_now();
        }
        return Ok(p);
    }
    let mut p = Peer { name: x.to_string(), s: rig.connect()?, open: true };
    p.send(&[b"test1.hello", x.as_bytes()])?;
    p.ack()?;
    let k = LOG.lock().unwrap().iter().filter(|e| **e == Ev::Opened).count();
    if k != 1 { return Err(format!("{} notifications about one new connection", k)); }
    Ok(p)
}
/// C22: which broadcasts are executed; C24: which connections are closed
pub fn c22(mut c: Ctx) -> ! {
    let rig = Rig::new();
    let c24 = c.prop == "C24";
    for part in 0..if c24 { 0 } else { 2 } {
        let crowd = Crowd::new(&rig, 3);
        let mut one = if part == 0 { Some(Peer { name: "c".into(), s: rig.connect().expect("connection"), open: true }) } else { None };
        if let Some(ref mut p) = one { p.send(&[b"test1.hello", b"c"]).and_then(|_| p.ack()).expect("connection"); }
        let t = std::time::Instant::now();
        let mut k = 0usize;
        while !c.done() && t.elapsed() < Duration::from_millis(if c.thorough { 20000 } else { 3000 }) {
            k += 1;
            if part == 0 {
                c.case(1, false, &|| format!("three threads enqueue one broadcast each at the same time, one connection (attempt {})", k), &mut || {
                    RUN.store(0, SeqCst);
                    crowd.order(1, true)?;
                    // (the runtime thread may have been busy with them)
                    let t = std::time::Instant::now();
                    while RUN.load(SeqCst) < 3 && t.elapsed() < Duration::from_secs(5) { std::thread::yield_now(); }
                    if RUN.load(SeqCst) != 3 { return Err(format!("{} executions have taken place instead of 3, and nothing happens any more", RUN.load(SeqCst))); }
                    Ok(())
                });
            } else {
                c.case(2, false, &|| format!("a connection is made while three threads enqueue broadcasts that send a message (attempt {})", k), &mut || opening(&rig, &crowd));
            }
        }
        if let Some(ref mut p) = one { let _ = p.s.shutdown(std::net::Shutdown::Write); let _ = gone(&mut p.s); }
    }
    while !c.done() {
        let np = 1 + c.rng.below(4);
        let mut names: Vec<String> = (0..np).map(|k| format!("c{}", k)).collect();
        let mute = c.rng.below(9) as u64;
        if np > 1 && c.rng.chance(1, 3) { names[np - 1] = "?".into(); }
        let mut n = 0usize;
        fn mk(c: &mut Ctx, n: &mut usize, names: &[String], depth: usize) -> Bc {
            *n += 1;
            let k = *n;
            let victim = if c.rng.chance(1, 8) { Some(c.rng.pick(names).clone()) } else { None };
            let then = if depth < 3 && c.rng.chance(1, 4) { let w = c.rng.pick(names).clone(); Some((w, Box::new(mk(c, n, names, depth + 1)))) } else { None };
            Bc { n: k, victim, then }
        }
        let mut ops = vec![];
        for _ in 0..1 + c.rng.below(5) {
            let k = c.rng.below(4);
            let l: Vec<Bc> = (0..if k == 0 { 1 } else { c.rng.below(4) }).map(|_| mk(&mut c, &mut n, &names, 0)).collect();
            let oc: Vec<Bc> = if c.rng.chance(1, 3) { vec![mk(&mut c, &mut n, &names, 1)] } else { vec![] };
            let op = match c.rng.below(7) { 6 => Op::Join(c.rng.below(np)), 0 if c24 && c.rng.chance(1, 2) => Op::Rude(c.rng.below(np)), 0 => Op::Leave(c.rng.below(np)), 1 => Op::Bye(c.rng.below(np)), 2 | 3 => Op::Task(l), _ => Op::Handler(c.rng.below(np), l) };
            let op = match op { Op::Handler(k, _) | Op::Bye(k) | Op::Rude(k) if names[k] == "?" => Op::Leave(k), o => o };
            let oc = if let Op::Rude(_) = op { vec![] } else { oc };
            ops.push((op, oc));
        }
        let desc = || format!("clients {:?}{}; {}", names, if names[np - 1] == "?" { format!(" (? {})", ["stays in the handshake", "provides standard input", "takes standard output"][mute as usize % 3]) } else { String::new() }, ops.iter().map(|(o, oc)| format!("{}{}", match o {
            Op::Handler(k, l) => format!("a handler of {} enqueues [{}]", names[*k], l.iter().map(bc_text).collect::<Vec<_>>().join(", ")),
            Op::Task(l) => format!("a task enqueues [{}]", l.iter().map(bc_text).collect::<Vec<_>>().join(", ")),
            Op::Leave(k) => format!("{} disconnects", names[*k]), Op::Rude(k) => format!("{} disconnects without reading its answer", names[*k]), Op::Bye(k) => format!("{} is torn down by its handler", names[*k]), Op::Join(k) => format!("{}, if it has left, connects again", names[*k]),
        }, if oc.is_empty() { String::new() } else { format!(", on the first closed connection the application enqueues [{}]", oc.iter().map(bc_text).collect::<Vec<_>>().join(", ")) })).collect::<Vec<_>>().join("; "));
        let h = fnv(desc().as_bytes());
        let mut victims: std::collections::HashMap<usize, usize> = Default::default();
        fn note(b: &Bc, names: &[String], v: &mut std::collections::HashMap<usize, usize>) {
            if let Some(ref x) = b.victim { v.insert(b.n, names.iter().position(|y| y == x).unwrap()); }
            if let Some((_, ref x)) = b.then { note(x, names, v); }
        }
        for (op, oc) in &ops { if let Op::Handler(_, l) | Op::Task(l) = op { for b in l { note(b, &names, &mut victims); } } for b in oc { note(b, &names, &mut victims); } }
        c.case(h, false, &desc, &mut || {
            let mut ps: Vec<Peer> = vec![];
            for x in &names {
                ps.push(join(&rig, x, mute)?);
            }
            for (op, oc) in &ops {
                if let Op::Join(k) = op { if !ps[*k].open { ps[*k] = join(&rig, &names[*k], mute)?; } continue; }
                match op { Op::Leave(k) | Op::Rude(k) | Op::Bye(k) | Op::Handler(k, _) if !ps[*k].open => continue, _ => {} }
                LOG.lock().unwrap().clear();
                rig.app.0.lock().unwrap().on_close = oc.clone();
                let mut early = None;
                match op {
                    Op::Handler(k, l) => {
                        let i = { let mut s = rig.app.0.lock().unwrap(); s.scripts.push(l.clone()); s.scripts.len() - 1 };
                        ps[*k].send(&[b"test1.bc", i.to_string().as_bytes()])?;
                        early = ps[*k].ack().err();
                    }
                    Op::Task(l) => rig.control(l.clone())?,
                    Op::Leave(k) => { let _ = ps[*k].s.shutdown(std::net::Shutdown::Write); gone(&mut ps[*k].s)?; }
                    Op::Rude(k) => {
                        ps[*k].send(&[b"test1.ping"])?;
                        unread(&ps[*k].s)?;
                        ps[*k].s = UnixStream::pair().map_err(|e| e.to_string())?.0;
                        let t = std::time::Instant::now();
                        while !LOG.lock().unwrap().contains(&Ev::Closed) { if t.elapsed() > Duration::from_secs(10) { return Err(format!("{} has gone away without reading its answer, but its connection is not closed", names[*k])); } std::thread::yield_now(); }
                    }
                    Op::Join(_) => unreachable!(),
                    Op::Bye(k) => { ps[*k].send(&[b"test1.bye"])?; gone(&mut ps[*k].s)?; }
                }
                let got = LOG.lock().unwrap().clone();
                let all: Vec<usize> = got.iter().filter_map(|e| if let Ev::Enq(n) = e { Some(*n) } else { None }).collect();
                let mut torn: Vec<usize> = vec![];
                for k in 0..np {
                    let g: Vec<usize> = got.iter().filter_map(|e| match e { Ev::Ran(n, x) if *x == names[k] => Some(*n), _ => None }).collect();
                    let left = match op { Op::Leave(j) | Op::Rude(j) | Op::Bye(j) => *j == k, _ => g.iter().any(|n| victims.get(n) == Some(&k)) } || g.iter().any(|n| victims.get(n) == Some(&k));
                    if !ps[k].open { if !g.is_empty() && !c24 { return Err(format!("the broadcasts {:?} were executed on client {}, which is gone", g, names[k])); } continue; }
                    if left { torn.push(k); }
                    if !c24 && if left { g.len() > all.len() || g[..] != all[..g.len()] } else { g != all } { return Err(format!("on client {}, the broadcasts {:?} were executed, but {:?} were enqueued", names[k], g, all)); }
                }
                for k in &torn { if c24 && !matches!(op, Op::Leave(j) | Op::Rude(j) if j == k) { closed(&mut ps[*k].s).map_err(|e| format!("client {}, in teardown: {}", names[*k], e))?; } gone(&mut ps[*k].s).map_err(|e| format!("client {}, in teardown: {}", names[*k], e))?; ps[*k].open = false; }
                if let (Op::Handler(k, _), Some(e)) = (op, early) { if !torn.contains(k) { return Err(e); } }
                let n = got.iter().filter(|e| **e == Ev::Closed).count();
                if c24 && n != torn.len() { return Err(format!("{} notifications about closed connections, but {} were closed", n, torn.len())); }
            }
            LOG.lock().unwrap().clear();
            for p in ps.iter_mut().filter(|p| p.open && p.name != "?") { p.send(&[b"test1.ping"])?; p.ack()?; }
            let left = LOG.lock().unwrap().iter().filter(|e| if c24 { matches!(e, Ev::Closed) } else { matches!(e, Ev::Ran(..)) }).count();
            if left > 0 { return Err(format!("{} {} come late", left, if c24 { "notifications" } else { "broadcasts" })); }
            rig.app.0.lock().unwrap().on_close.clear();
            for p in ps.iter_mut().filter(|p| p.open) { let _ = p.s.shutdown(std::net::Shutdown::Write); gone(&mut p.s)?; }
            Ok(())
        });
    }
    drop(rig);
    if c24 { c.finish("one to four connections of a server on a Unix socket that connect, leave, are torn down by their handlers and by broadcasts, and connect again, mixed with broadcasts enqueued by handlers, tasks, other broadcasts and the application; that each connection which ends is closed, that the application is notified exactly once, that nobody else is closed and that every answer reaches the client that asked; distinct sequences", "at most five steps of three broadcasts, one runtime thread"); }
    c.finish("three threads that enqueue broadcasts at the same time, also while connections are made; sequences of broadcasts on one to four connections of a server on a Unix socket, enqueued by handlers, by tasks of their own, by other broadcasts and by the application on a closed connection, mixed with connections that end; which broadcast ran on which connection and which connections were closed is compared with a model; distinct sequences", "at most five steps of three broadcasts, one runtime thread, three other threads; schedules as they happen")
}

/// Threads that enqueue broadcasts at the same time. Each broadcast counts its executions and sends a message.
struct Crowd { go: Arc<AtomicUsize>, done: Arc<AtomicUsize>, n: usize, hs: Vec<std::thread::JoinHandle<()>> }
static RUN: AtomicUsize = AtomicUsize::new(0);
impl Crowd {
    /// go: 0: pause, 1: enqueue one each, 2: keep enqueueing (both + 4 * round), MAX: end
    fn new(rig: &Rig, n: usize) -> Crowd {
        let d = rig.app.0.lock().unwrap().dispatch.clone().unwrap();
        let (go, done) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
        let hs = (0..n).map(|t| { let (d, go, done) = (d.clone(), go.clone(), done.clone()); std::thread::spawn(move || {
            let mut seen = 0;
            loop {
                let g = go.load(SeqCst);
                if g == usize::MAX { return; }
                if g % 4 == 2 { d.enqueue_broadcast(Box::new(|c| { RUN.fetch_add(1, SeqCst); c.enqueue_message(&vt6::msg::core::ClientNew { secret: "c" }); })); seen = g; continue; }
                if g == seen { std::thread::yield_now(); continue; }
                seen = g;
                if g % 4 == 1 { for _ in 0..(g * 7 + t * 13) % 50 { std::hint::spin_loop(); } d.enqueue_broadcast(Box::new(|_| { RUN.fetch_add(1, SeqCst); })); }
                done.fetch_add(1, SeqCst);
            }
        }) }).collect();
        Crowd { go, done, n, hs }
    }
    fn order(&self, mode: usize, wait: bool) -> Result<(), String> {
        self.done.store(0, SeqCst);
        self.go.store((self.go.load(SeqCst) / 4 + 1) * 4 + mode, SeqCst);
        let t = std::time::Instant::now();
        while wait && self.done.load(SeqCst) < self.n { if t.elapsed() > Duration::from_secs(15) { return Err("enqueue_broadcast() does not return".into()); } std::thread::yield_now(); }
        Ok(())
    }
}
impl Drop for Crowd { fn drop(&mut self) { self.go.store(usize::MAX, SeqCst); for h in self.hs.drain(..) { let _ = h.join(); } } }
/// a connection is made while threads enqueue broadcasts that send a message to each connection
fn opening(rig: &Rig, crowd: &Crowd) -> Result<(), String> {
    RUN.store(0, SeqCst);
    crowd.order(2, false)?;
    let mut p = Peer { name: "c".into(), s: rig.connect()?, open: true };
    let t = std::time::Instant::now();
    while RUN.load(SeqCst) == 0 { if t.elapsed() > Duration::from_secs(15) { return Err("no broadcast is executed on a new connection".into()); } std::thread::yield_now(); }
    crowd.order(0, true)?;
    // (the handler makes two messages)
    p.send(&[b"test1.hello", b"c"])?;
    p.ack()?;
    p.send(&[b"test1.ping"])?;
    let mut n = 1;
    while n < RUN.load(SeqCst) + 2 { p.ack().map_err(|e| format!("{} messages were queued for a new connection, but {} come ({})", RUN.load(SeqCst) + 2, n, e))?; n += 1; }
    let _ = p.s.shutdown(std::net::Shutdown::Write);
    gone(&mut p.s)
}

// ---------------------------------------------------------------- C28
/// one server from its start to its end
enum Cmd { Shutdown, Listen, End }
struct Life { app: App, d: server::tokio::Dispatch<App>, path: std::path::PathBuf, result: std::sync::mpsc::Receiver<std::io::Result<()>>, cmd: tokio::sync::mpsc::UnboundedSender<Cmd>, th: Option<std::thread::JoinHandle<()>> }
impl Life {
    fn start(path: std::path::PathBuf, expect: bool, threads: usize) -> Result<Life, String> {
        LOG.lock().unwrap().clear();
        let app = App(Arc::new(Mutex::new(Shared::default())));
        let d = server::tokio::Dispatch::new(path.clone(), app.clone()).map_err(|e| e.to_string())?;
        app.0.lock().unwrap().dispatch = Some(d.clone());
        let (rtx, result) = std::sync::mpsc::channel();
        let (cmd, mut rx) = tokio::sync::mpsc::unbounded_channel::<Cmd>();
        let e = d.clone();
        let th = std::thread::spawn(move || {
            let rt = if threads > 1 { tokio::runtime::Builder::new_multi_thread().worker_threads(threads).enable_io().build() } else { tokio::runtime::Builder::new_current_thread().enable_io().build() }.expect("runtime");
            rt.block_on(async move {
                let mut l = vec![];
                loop { match rx.recv().await {
                    Some(Cmd::Listen) => { let (f, rtx) = (e.clone(), rtx.clone()); l.push(tokio::spawn(async move { let _ = rtx.send(f.run_listener().await); })); }
                    Some(Cmd::Shutdown) => e.shutdown(),
                    Some(Cmd::End) | None => break,
                } }
                for l in l { l.abort(); }
            });
        });
        let l = Life { app, d, path, result, cmd, th: Some(th) };
        l.listen(expect)?;
        Ok(l)
    }
    fn listen(&self, expect: bool) -> Result<(), String> {
        let _ = self.cmd.send(Cmd::Listen);
        if expect {
            for k in 0..5000 { if self.path.exists() { return Ok(()); } std::thread::sleep(Duration::from_millis(if k < 50 { 1 } else { 3 })); }
            return Err("there is no socket at the given path".into());
        }
        Ok(())
    }
    fn connect(&self) -> Result<UnixStream, String> {
        let s = crate::connect(&self.path).map_err(|e| format!("cannot connect: {}", e))?;
        s.set_read_timeout(Some(Duration::from_secs(15))).unwrap();
        s.set_write_timeout(Some(Duration::from_secs(15))).unwrap();
        Ok(s)
    }
}
impl Drop for Life { fn drop(&mut self) { let _ = self.cmd.send(Cmd::End); if let Some(t) = self.th.take() { let _ = t.join(); } let d = self.app.0.lock().unwrap().dispatch.take(); drop(d); let _ = std::fs::remove_file(&self.path); } }
fn count(e: Ev) -> usize { LOG.lock().unwrap().iter().filter(|x| **x == e).count() }
fn told(n: usize, what: Ev) -> Result<(), String> {
    let t = std::time::Instant::now();
    while count(what.clone()) < n { if t.elapsed() > Duration::from_secs(15) { return Err(format!("{} notifications {:?} about {} connections", count(what.clone()), what, n)); } std::thread::yield_now(); }
    Ok(())
}
#[derive(Debug, Clone)]
enum Step { Join, Burst(usize), Flash, Leave(usize), Work(usize) }
#[derive(Debug, Clone, PartialEq)]
enum Stop { Thread, Task, Handler, Rush(usize), NoDescriptor, Blocked }
fn life(path: &std::path::Path, lives: &[(Vec<Step>, Stop, bool)], threads: usize) -> Result<(), String> {
    let l = Life::start(path.to_path_buf(), true, threads)?;
    for (k, (steps, stop, busy)) in lives.iter().enumerate() {
        if k > 0 { LOG.lock().unwrap().clear(); l.listen(true)?; }
        life1(&l, steps, stop, *busy, threads).map_err(|e| if k > 0 { format!("the server that is started again: {}", e) } else { e })?;
    }
    Ok(())
}
fn life1(l: &Life, steps: &[Step], stop: &Stop, busy: bool, threads: usize) -> Result<(), String> {
    let mut ps: Vec<Peer> = vec![];
    let (mut n, mut all) = (0usize, 0usize);
    for st in steps {
        match *st {
            Step::Join | Step::Burst(_) => {
                let k = if let Step::Burst(k) = *st { k } else { 1 };
                let at = ps.len();
                for _ in 0..k { ps.push(Peer { name: format!("n{}", n), s: l.connect()?, open: true }); n += 1; all += 1; }
                for p in ps[at..].iter_mut().rev() { let x = p.name.clone(); p.send(&[b"test1.hello", x.as_bytes()])?; }
                for p in ps[at..].iter_mut() { p.ack().map_err(|e| format!("connection {}: {}", p.name, e))?; }
            }
            Step::Flash => { drop(l.connect()?); all += 1; }
            Step::Leave(k) => if !ps.is_empty() { let i = k % ps.len(); let mut p = ps.remove(i); if k % 2 == 0 { let _ = p.s.shutdown(std::net::Shutdown::Write); gone(&mut p.s)?; } else { p.send(&[b"test1.bye"])?; gone(&mut p.s)?; } },
            Step::Work(k) => if !ps.is_empty() { let i = k % ps.len(); for p in ps.iter_mut().skip(i) { p.send(&[b"test1.ping"])?; } for p in ps.iter_mut().skip(i) { p.ack().map_err(|e| format!("connection {}: {}", p.name, e))?; } },
        }
    }
    // (with several threads, shutdown() might come before the listener is ready)
    if threads > 1 && all == 0 { drop(l.connect()?); all += 1; }
    told(all, Ev::Opened)?;
    // nobody has gone that did not want to
    for p in ps.iter_mut() { p.send(&[b"test1.ping"])?; p.ack().map_err(|e| format!("connection {}: {}", p.name, e))?; }
    if count(Ev::Opened) != all { return Err(format!("{} notifications about {} new connections", count(Ev::Opened), all)); }
    if l.result.try_recv().is_ok() { return Err("run_listener() has come back though nobody called shutdown()".into()); }
    let mut late: Vec<UnixStream> = vec![];
    if *stop == Stop::Blocked { std::fs::remove_file(&l.path).map_err(|e| e.to_string())?; std::fs::create_dir(&l.path).map_err(|e| e.to_string())?; }
    match *stop {
        Stop::Thread if all > 0 => l.d.shutdown(),
        Stop::Handler if !ps.is_empty() => { let i = n % ps.len(); ps[i].send(&[b"test1.end"])?; if !busy { let _ = ps[i].ack(); } }
        Stop::Rush(k) if all > 0 => { for i in 0..k + 3 { if i == k { l.d.shutdown(); } if let Ok(s) = l.connect() { late.push(s); } } }
        Stop::NoDescriptor => unsafe {
            // all descriptors are taken, except one for the client (others may become free meanwhile: again)
            let mut old = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::getrlimit(libc::RLIMIT_NOFILE, &mut old);
            libc::setrlimit(libc::RLIMIT_NOFILE, &libc::rlimit { rlim_cur: 200, rlim_max: old.rlim_max });
            let (mut taken, mut ss, mut r) = (vec![], vec![], Err(std::sync::mpsc::RecvTimeoutError::Timeout));
            for _ in 0..40 {
                loop { let k = libc::dup(0); if k < 0 { break; } taken.push(k); }
                if let Some(k) = taken.pop() { libc::close(k); }
                if let Ok(s) = l.connect() { ss.push(s); }
                r = l.result.recv_timeout(Duration::from_millis(300));
                if r.is_ok() { break; }
            }
            libc::setrlimit(libc::RLIMIT_NOFILE, &old);
            for k in taken { libc::close(k); }
            drop(ss);
            ps.clear();
            let t = std::time::Instant::now();
            while count(Ev::Closed) < count(Ev::Opened) && t.elapsed() < Duration::from_secs(5) { std::thread::yield_now(); }
            return match r { Ok(Err(_)) => Ok(()), Ok(Ok(())) => Err("run_listener() returns Ok(()) when it cannot accept a connection, though nobody called shutdown()".into()), Err(_) => Err("run_listener() does not return when it cannot accept a connection".into()) };
        },
        _ => { let _ = l.cmd.send(Cmd::Shutdown); }
    }
    if *stop == Stop::Blocked {
        let r = l.result.recv_timeout(Duration::from_secs(15));
        let _ = std::fs::remove_dir(&l.path);
        for p in ps.iter_mut() { let _ = gone(&mut p.s); }
        return match r { Ok(Err(_)) => Ok(()), Ok(Ok(())) => Err("run_listener() returns Ok(()) though there is something at its path that it cannot remove".into()), Err(_) => Err("run_listener() does not return after shutdown()".into()) };
    }
    if busy { for p in ps.iter_mut() { let _ = p.send(&[b"test1.ping"]); } }
    match l.result.recv_timeout(Duration::from_secs(15)) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Err(format!("run_listener() returns an error after shutdown(): {}", e)),
        Err(_) => return Err("run_listener() does not return after shutdown()".into()),
    }
    if std::fs::symlink_metadata(&l.path).is_ok() { return Err("the socket is still there after run_listener() has returned".into()); }
    // (the runtime goes on)
    for p in ps.iter_mut() { gone(&mut p.s).map_err(|e| format!("connection {} after run_listener() has returned: {}", p.name, e))?; }
    for s in late.iter_mut() { gone(s).map_err(|e| format!("a connection made at the same time as shutdown(), after run_listener() has returned: {}", e))?; }
    let (o, e) = (count(Ev::Opened), count(Ev::Closed));
    if e != o { return Err(format!("{} notifications about the end of {} connections after run_listener() has returned", e, o)); }
    if o < all || o > all + late.len() { return Err(format!("{} notifications about {} new connections", o, all)); }
    Ok(())
}
pub fn c28(mut c: Ctx) -> ! {
    use std::os::unix::ffi::OsStringExt;
    let dir = std::env::temp_dir().join(format!("vt6-hn-{}", std::process::id()));
    std::fs::create_dir(&dir).expect("scratch directory");
    // many connections: more than any number that is new in the source
    let mut many: Vec<usize> = vec![300];
    for i in c.hot_ints.iter() { if *i < 1500 { many.push(*i as usize + 2) } }
    while !c.done() {
        let name: &[u8] = *c.rng.pick(&[&b"s"[..], b"a b", b"\xc3\xbc", b"\xff\xfe", b".s", b"a-long-name-for-a-socket-0123456789", b"-", b"%n{}\"'"]);
        let path = dir.join(std::ffi::OsString::from_vec(name.to_vec()));
        let mut lives = vec![];
        for k in 0..if c.rng.chance(1, 4) { 2 } else { 1 } {
            let mut steps = vec![];
            for _ in 0..c.rng.below(if k > 0 { 3 } else { 6 }) {
                let k = c.rng.below(12);
                steps.push(match c.rng.below(9) { 0..=2 => Step::Join, 3 | 4 => Step::Burst(1 + k), 5 => Step::Flash, 6 | 7 => Step::Leave(k), _ => Step::Work(k) });
            }
            let stop = match c.rng.below(28) { 0..=5 => Stop::Thread, 6..=8 => Stop::Task, 9..=14 => Stop::Handler, 15..=23 => Stop::Rush(c.rng.below(6)), 24 => Stop::Blocked, _ => Stop::NoDescriptor };
            let last = matches!(stop, Stop::NoDescriptor | Stop::Blocked);
            if stop != Stop::NoDescriptor && (c.rng.chance(1, 200) || lives.is_empty() && many.len() > 1 && c.rng.chance(1, 10)) { let n = *c.rng.pick(&many); steps.push(Step::Burst(n)); }
            lives.push((steps, stop, c.rng.chance(1, 3)));
            if last { break; }
        }
        let threads = if c.rng.chance(1, 3) { 2 + c.rng.below(2) } else { 1 };
        if c.rng.chance(1, 25) {
            c.case(1, false, &|| format!("a server whose socket path is taken by a file ({})", show(name)), &mut || {
                std::fs::write(&path, b"x").map_err(|e| e.to_string())?;
                let l = Life::start(path.clone(), false, 1)?;
                let r = l.result.recv_timeout(Duration::from_secs(15));
                let there = std::fs::read(&path);
                match r { Ok(Err(_)) => {} Ok(Ok(())) => return Err("run_listener() returns Ok(()) though it cannot listen".into()), Err(_) => return Err("run_listener() does not return though it cannot listen".into()) }
                if there.ok() != Some(b"x".to_vec()) { return Err("the file was changed".into()); }
                Ok(())
            });
            continue;
        }
        let key = fnv(format!("{:?}{}", lives, threads).as_bytes());
        let text = || lives.iter().map(|(s, e, b)| format!("from its start to its end: {:?}, ended by {:?}{}", s, e, if *b { ", while messages are on their way" } else { "" })).collect::<Vec<_>>().join("; again ");
        c.case(key, false, &|| format!("a server with {} thread(s) on {} {}", threads, show(name), text()), &mut || life(&path, &lives, threads));
    }
    let _ = std::fs::remove_dir_all(&dir);
    c.finish("servers on Unix sockets at paths of several kinds, from start to end: connections that come one by one or in bursts, go at once, are ended by either side, are used; shutdown() called by a thread, a task or a handler, also while connections are being made and messages are on their way; accept() that fails for want of descriptors; a path that is taken, or is no socket in the end; servers that are started again; one to three runtime threads. Each client is answered on its own connection, the application is told once about each, and at the end run_listener() returns, the socket is gone and all connections are closed while the runtime goes on; distinct sequences", "at most six steps; mostly some thirty connections, sometimes 300")
}
