//! C18: a server on a socket in a scratch directory queues output, its peers check what they receive
//! C19: discarding from the receive buffer
use crate::ctx::*;
use crate::oracle;
use std::io::{Read, Write};
use std::os::unix::net::UnixStream;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vt6::common::core::msg::{Message, ParseError};
use vt6::common::core::{ClientID, ModuleIdentifier};
use vt6::server::{self, Application, ClientCredentials, ClientIdentity, ClientSelector, Connection, ConnectionState, Dispatch, Handler, HandlerError, Notification, ReceiveBuffer, ScreenIdentity};

type B = Vec<u8>;
pub struct MsgConn { id: ClientIdentity }
impl server::MessageConnector for MsgConn {
    fn new(id: ClientIdentity) -> Self { MsgConn { id } }
    fn identity(&self) -> &ClientIdentity { &self.id }
}
pub struct OutConn;
impl server::StdoutConnector for OutConn {
    fn new(_: ScreenIdentity) -> Self { OutConn }
    fn receive(&mut self, _: &[u8]) {}
}
#[derive(Clone, Debug)]
enum Op { Msg(String), Stdin(B), Bad(bool, u8) }
#[derive(Clone)]
pub struct App(Arc<Mutex<Vec<Vec<Op>>>>);
impl Application for App {
    type MessageConnector = MsgConn;
    type StdoutConnector = OutConn;
    type MessageHandler = Test;
    type HandshakeHandler = Test;
    fn notify(&self, _: &Notification) {}
    fn register_client(&self, _: ClientIdentity) -> ClientCredentials { ClientCredentials::generate() }
    fn unregister_clients(&self, _: ClientSelector) {}
    fn has_clients(&self, _: ClientSelector) -> bool { false }
    fn authorize_client(&self, _: &str) -> Option<ClientIdentity> { None }
    fn find_client(&self, _: ClientID<'_>) -> Option<ClientIdentity> { None }
    fn authorize_stdin(&self, _: &str) -> Option<ScreenIdentity> { None }
    fn authorize_stdout(&self, _: &str) -> Option<ScreenIdentity> { None }
}
fn msgio() -> ConnectionState<App> { ConnectionState::Msgio(MsgConn { id: ClientIdentity::new(&ClientID::parse("t1").unwrap()) }) }
/// runs the script whose number is in the message, all within one call
#[derive(Default)] pub struct Test;
impl Handler<App> for Test {
    fn handle<D: Dispatch<App>>(&self, msg: &Message, conn: &mut Connection<App, D>) -> Result<(), HandlerError> {
        let n: usize = std::str::from_utf8(msg.arguments().next().ok_or(HandlerError::InvalidMessage)?).map_err(|_| HandlerError::InvalidMessage)?.parse().map_err(|_| HandlerError::InvalidMessage)?;
        let ops = conn.dispatch().application().0.lock().unwrap()[n].clone();
        conn.set_state(msgio());
        for op in ops {
            match op {
                Op::Msg(s) => {
                    conn.enqueue_message(&vt6::msg::core::ClientNew { secret: &s });
                    if let ConnectionState::Teardown = conn.state() { return Ok(()); }
                }
                Op::Stdin(b) => {
                    conn.set_state(ConnectionState::Stdin(ScreenIdentity::new("s1")));
                    conn.enqueue_stdin(&b);
                    conn.set_state(msgio());
                }
                // in a state in which this is not allowed: it may panic
                Op::Bad(input, k) => {
                    conn.set_state(match k { 0 => ConnectionState::Handshake, 1 => msgio(), 2 => ConnectionState::Stdin(ScreenIdentity::new("s1")), 3 => ConnectionState::Stdout(OutConn), _ => ConnectionState::Teardown });
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if input { conn.enqueue_stdin(b"in the wrong state") } else { conn.enqueue_message(&vt6::msg::core::ClientNew { secret: "in the wrong state" }) }));
                    conn.set_state(msgio());
                }
            }
        }
        Ok(())
    }
    fn handle_error<D: Dispatch<App>>(&self, _: &ParseError, _: &mut Connection<App, D>) {}
}
impl server::MessageHandler<App> for Test { fn get_supported_module_version(&self, _: &ModuleIdentifier<'_>) -> Option<u16> { None } }
impl server::HandshakeHandler<App> for Test {}

fn encoded(op: &Op) -> B { match op { Op::Msg(s) => oracle::message(&[b"core1.client-new".to_vec(), s.clone().into_bytes()]), Op::Stdin(b) => b.clone(), Op::Bad(..) => vec![] } }

struct Scratch(std::path::PathBuf);
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_file(self.0.join("s")); let _ = std::fs::remove_dir(&self.0); } }

/// what one peer does: scripts to ask for; whether to wait for everything that is due after each
#[derive(Clone, Debug)]
struct Step { peer: usize, script: usize, wait: bool }
struct Peer { s: UnixStream, want: B, got: usize, torn: bool }
impl Peer {
    fn ask(&mut self, n: usize, ops: &[Op]) -> Result<(), String> {
        if self.torn { return Ok(()); }
        for o in ops {
            let b = encoded(o);
            if let Op::Msg(_) = o { if b.len() > 1024 { self.torn = true; break; } }
            self.want.extend_from_slice(&b);
        }
        let m = oracle::message(&[b"test1.go".to_vec(), n.to_string().into_bytes()]);
        self.s.write_all(&m).or_else(|e| if self.torn { Ok(()) } else { Err(format!("cannot write: {}", e)) })
    }
    fn read(&mut self) -> Result<(), String> {
        let mut b = [0u8; 8192];
        while self.got < self.want.len() || self.torn {
            match self.s.read(&mut b) {
                Ok(0) if self.torn => return Ok(()),
                Ok(0) => return Err(format!("the connection was closed after {} of {} bytes", self.got, self.want.len())),
                Ok(n) => {
                    if n > self.want.len() - self.got || b[..n] != self.want[self.got..self.got + n] {
                        let w = &self.want[self.got..];
                        let k = b[..n].iter().zip(w).take_while(|(x, y)| x == y).count();
                        return Err(format!("byte {} of the output is wrong: {} instead of {}", self.got + k, show(&b[k..n.min(k + 60)]), show(&w[k..w.len().min(k + 60)])));
                    }
                    self.got += n;
                }
                Err(ref e) if self.torn && e.kind() == std::io::ErrorKind::ConnectionReset => return Ok(()),
                Err(e) => return Err(format!("received {} of {} bytes{}, then: {}", self.got, self.want.len(), if self.torn { " before the teardown" } else { "" }, e)),
            }
        }
        Ok(())
    }
}
fn ops_short(o: &[Op]) -> String { o.iter().map(|x| match x { Op::Msg(s) => format!("message of {} bytes", encoded(&Op::Msg(s.clone())).len()), Op::Stdin(b) => format!("{} bytes of input", b.len()), Op::Bad(input, k) => format!("{} in state {}", if *input { "input" } else { "a message" }, ["Handshake", "Msgio", "Stdin", "Stdout", "Teardown"][*k as usize]) }).collect::<Vec<_>>().join(", ") }

/// what is queued in a state that does not allow it is ignored, or the call panics (whatever else happens to the server then)
fn wrong_states(c: &mut Ctx) {
    for (n, (input, k)) in [(false, 2u8), (false, 3), (false, 4), (true, 0), (true, 1), (true, 3), (true, 4)].iter().enumerate() {
        let dir = std::env::temp_dir().join(format!("vt6-ht-{}-{}", std::process::id(), n));
        std::fs::create_dir(&dir).expect("scratch directory");
        let _scratch = Scratch(dir.clone());
        let path = dir.join("s");
        let ops = vec![Op::Msg("before".into()), Op::Bad(*input, *k), Op::Msg("after".into())];
        let d = server::tokio::Dispatch::new(path.clone(), App(Arc::new(Mutex::new(vec![ops.clone()])))).expect("dispatch");
        std::thread::spawn(move || { let rt = tokio::runtime::Builder::new_current_thread().enable_io().build().expect("runtime"); let _ = rt.block_on(async move { d.run_listener().await }); });
        for _ in 0..500 { if path.exists() { break; } std::thread::sleep(Duration::from_millis(10)); }
        c.case(n as u64, false, &|| format!("a connection queues [{}]", ops_short(&ops)), &mut || {
            let mut s = crate::connect(&path).map_err(|e| format!("cannot connect: {}", e))?;
            s.set_read_timeout(Some(Duration::from_secs(3))).unwrap();
            let want: B = ops.iter().flat_map(|o| encoded(o)).collect();
            let mut got: B = vec![];
            let _ = s.write_all(&oracle::message(&[&b"test1.go"[..], b"0"]));
            let mut b = [0u8; 8192];
            while got.len() < want.len() { match s.read(&mut b) { Ok(0) | Err(_) => break, Ok(n) => got.extend_from_slice(&b[..n]) } }
            if got.len() > want.len() || got[..] != want[..got.len()] { return Err(format!("receives {}", show(&got))); }
            Ok(())
        });
    }
}
pub fn c18(mut c: Ctx) -> ! {
    wrong_states(&mut c);
    let dir = std::env::temp_dir().join(format!("vt6-ht-{}", std::process::id()));
    std::fs::create_dir(&dir).expect("scratch directory");
    let scratch = Scratch(dir.clone());
    let path = dir.join("s");
    let app = App(Arc::new(Mutex::new(vec![])));
    let d = server::tokio::Dispatch::new(path.clone(), app.clone()).expect("dispatch");
    std::thread::spawn(move || {
        let rt = tokio::runtime::Builder::new_current_thread().enable_io().build().expect("runtime");
        rt.block_on(async move { d.run_listener().await }).expect("listener");
    });
    for _ in 0..500 { if path.exists() { break; } std::thread::sleep(Duration::from_millis(10)); }
    let mut ctr = 0usize;
    let text = |n: usize, ctr: &mut usize| -> B { (0..n).map(|_| { *ctr += 1; b'a' + ((*ctr / 7 + *ctr * 11 + *ctr / 253) % 26) as u8 }).collect() };
    // the text of a message of `n` bytes in all (as near as possible)
    let msg = |n: usize, ctr: &mut usize| -> Op {
        let mut k = n.saturating_sub(28);
        while encoded(&Op::Msg("x".repeat(k))).len() < n { k += 1; }
        Op::Msg(String::from_utf8(text(k, ctr)).unwrap())
    };
    const BUF: usize = 4072;
    while !c.done() {
        app.0.lock().unwrap().clear();
        let npeers = 1 + c.rng.below(3);
        let mut steps = vec![];
        let mut scripts: Vec<Vec<Op>> = vec![];
        let tear = c.rng.chance(1, 12);
        let nsteps = 1 + c.rng.below(6);
        for st in 0..nsteps {
            let mut ops = vec![];
            let mut fill = 0usize;
            let style = c.rng.below(6);
            for _ in 0..1 + c.rng.below(if c.thorough { 40 } else { 16 }) {
                let op = match (style, c.rng.below(4)) {
                    (0, _) | (3, 0) => { let n = 30 + c.rng.below(990); msg(n, &mut ctr) }
                    (1, _) | (3, 1) => { let n = if c.rng.chance(1, 3) { c.rng.below(3 * BUF) } else { c.rng.below(300) }; Op::Stdin(text(n, &mut ctr)) }
                    // up to the end of a buffer, or just about
                    (4, k) | (5, k) => {
                        let left = BUF - fill % BUF;
                        let n = (left as i64 + [0, -1, 1, 5][c.rng.below(4)]) as usize;
                        if k == 0 { Op::Stdin(text(n, &mut ctr)) } else if n >= 30 && n <= 1024 { msg(n, &mut ctr) } else if k == 1 { Op::Stdin(text(n.saturating_sub(1 + c.rng.below(1100)), &mut ctr)) } else { let n = 30 + c.rng.below(995); msg(n, &mut ctr) }
                    }
                    (_, 2) => Op::Stdin(text(*c.rng.pick(&[0, 1, BUF - 1, BUF, BUF + 1, 2 * BUF, 2 * BUF + 1, 500]), &mut ctr)),
                    _ => { let n = *c.rng.pick(&[30, 31, 100, 1000, 1019, 1023, 1024]); msg(n, &mut ctr) }
                };
                fill += encoded(&op).len();
                ops.push(op);
            }
            if tear && st + 1 == nsteps { let n = *c.rng.pick(&[1025, 1026, 1500, 4072, 5000]); ops.push(msg(n, &mut ctr)); }
            steps.push(Step { peer: c.rng.below(npeers), script: scripts.len(), wait: c.rng.chance(1, 2) });
            scripts.push(ops);
        }
        // in the end, everybody gets a last message
        for p in 0..npeers { steps.push(Step { peer: p, script: scripts.len(), wait: true }); scripts.push(vec![msg(60, &mut ctr)]); }
        *app.0.lock().unwrap() = scripts.clone();
        let desc = || format!("{} connections; {}", npeers, steps.iter().map(|s| format!("connection {} queues [{}]{}", s.peer, ops_short(&scripts[s.script]), if s.wait { ", waits" } else { "" })).collect::<Vec<_>>().join("; "));
        let h = { let mut x = vec![]; for s in &steps { x.push(s.peer as u8); x.push(s.wait as u8); for o in &scripts[s.script] { x.extend_from_slice(&encoded(o).len().to_le_bytes()); } } fnv(&x) };
        c.case(h, false, &desc, &mut || {
            let mut peers = vec![];
            for _ in 0..npeers {
                let s = crate::connect(&path).map_err(|e| format!("cannot connect: {}", e))?;
                s.set_read_timeout(Some(Duration::from_secs(15))).unwrap();
                s.set_write_timeout(Some(Duration::from_secs(15))).unwrap();
                peers.push(Peer { s, want: vec![], got: 0, torn: false });
            }
            for s in &steps {
                peers[s.peer].ask(s.script, &scripts[s.script]).map_err(|e| format!("connection {}: {}", s.peer, e))?;
                if s.wait { peers[s.peer].read().map_err(|e| format!("connection {}: {}", s.peer, e))?; }
            }
            for (k, p) in peers.iter_mut().enumerate() { p.read().map_err(|e| format!("connection {}: {}", k, e))?; }
            Ok(())
        });
    }
    drop(scratch);
    c.finish("sequences of scripts (messages and input of chosen sizes, around the sizes of the buffers and of the longest message) queued by handlers on one to three connections of a server on a Unix socket; the peers compare every byte; distinct sequences of sizes",
        "scripts of at most 41 steps, inputs of at most three buffers, one runtime thread")
}

pub fn c19(mut c: Ctx) -> ! {
    fn check(b: &[u8], n: usize, how: usize) -> Result<(), String> {
        let mut m = match how {
            0 => bytes::BytesMut::from(b),
            // a buffer that is part of a larger one, and one with free space behind it
            1 => { let mut x = bytes::BytesMut::from(&b"prefix"[..]); x.extend_from_slice(b); x.split_off(6) }
            _ => { let mut x = bytes::BytesMut::with_capacity(b.len() * 2 + 10); x.extend_from_slice(b); x }
        };
        if m.contents() != b { return Err("contents() differs from what was put in".into()); }
        m.discard(n);
        if m.contents() != &b[n..] { return Err(format!("left {} instead of {}", show(m.contents()), show(&b[n..]))); }
        m.extend_from_slice(b"{1|4:want,}");
        let k = b.len() - n;
        if m.contents()[..k] != b[n..] || &m.contents()[k..] != b"{1|4:want,}" { return Err("bytes received afterwards are in the wrong place".into()); }
        if k > 1 { m.discard(1); if m.contents()[..k - 1] != b[n + 1..] { return Err("a second discard removes the wrong bytes".into()); } }
        Ok(())
    }
    let one = |c: &mut Ctx, b: &[u8], n: usize, how: usize| {
        let mut x = b.to_vec(); x.extend_from_slice(&n.to_le_bytes()); x.push(how as u8);
        c.case(fnv(&x), false, &|| format!("discard {} of {} ({} bytes, buffer made in way {})", n, show(b), b.len(), how), &mut || check(b, n, how));
    };
    for len in 0..=40usize {
        let b: B = (0..len).map(|i| (i * 37 + len) as u8).collect();
        for n in 0..=len { for how in 0..3 { one(&mut c, &b, n, how); } }
    }
    let mut edges = vec![1023usize, 1024, 1025, 4071, 4072, 4073];
    for &k in c.hot_ints.clone().iter().chain(c.ints.clone().iter()) { if k < 20000 { edges.push(k as usize); edges.push(k as usize + 1); } }
    while !c.done() {
        let len = if c.rng.chance(1, 3) { *c.rng.pick(&edges) } else if c.rng.chance(1, 2) { c.rng.below(200) } else { c.rng.below(9000) };
        let b = if c.rng.chance(1, 8) { vec![*c.rng.pick(&[0u8, 255, b'{']); len] } else { c.rng.bytes(len) };
        let n = match c.rng.below(5) { 0 => len, 1 => len.saturating_sub(1), 2 => (*c.rng.pick(&edges)).min(len), 3 => c.rng.below(len + 1), _ => c.rng.below(10).min(len) };
        let how = c.rng.below(3);
        one(&mut c, &b, n, how);
    }
    c.finish("buffer contents and discard lengths; every length up to 40 with every discard length, then random and boundary lengths; distinct pairs", "buffers of at most 20000 bytes")
}
