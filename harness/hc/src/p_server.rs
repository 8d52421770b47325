//! C14 C15 C16 C17: runs connections with a recording application and dispatch and compares them with an independent model
use crate::ctx::*;
use crate::gen;
use crate::oracle::{self, Kind};
use std::marker::PhantomData;
use std::sync::{Arc, Mutex};
use vt6::common::core::msg::{EncodeMessage, Message, ParseError};
use vt6::common::core::{ClientID, ModuleIdentifier};
use vt6::server::{self, Application, ClientCredentials, ClientIdentity, ClientSelector, Connection, ConnectionState, Dispatch, Handler, HandlerError, Notification, ReceiveBuffer, RejectHandler, ScreenIdentity};

type B = Vec<u8>;
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Info { id: String, stdin: Option<String>, stdout: Option<String>, stderr: Option<String> }
#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Handled(Vec<B>), HandledErr,
    Sent(Vec<B>), TooLong, Discarded(B),
    Register(Info), Unregister(bool, String), Broadcast(Vec<String>),
    Odd(String),
}
#[derive(Clone, Debug, PartialEq)]
enum St { Handshake, Msgio(Info), Stdin(String), Stdout(String, B), Teardown }
fn short(e: &[Ev]) -> String { let mut s = format!("{:?}", e.iter().map(|x| match x {
    Ev::Handled(m) => format!("handled {}", m.iter().map(|b| show(b)).collect::<Vec<_>>().join(" ")),
    Ev::Sent(m) => format!("sent {}", m.iter().map(|b| show(b)).collect::<Vec<_>>().join(" ")),
    Ev::Discarded(b) => format!("discarded {}", show(b)), x => format!("{:?}", x) }).collect::<Vec<_>>()); if s.len() > 900 { let mut k = 900; while !s.is_char_boundary(k) { k -= 1; } s.truncate(k); s += "..."; } s }

/// what the application knows
#[derive(Clone, Default)]
struct World {
    clients: Vec<(Info, String)>,
    stdins: Vec<(String, String)>,
    stdouts: Vec<(String, String)>,
    probes: Vec<String>,
    log: Vec<Ev>,
}
impl World {
    fn below(&self, id: &str) -> bool { self.clients.iter().any(|c| c.0.id.starts_with(id)) }
}
fn identity(i: &Info) -> ClientIdentity {
    let mut r = ClientIdentity::new(&ClientID::parse(&i.id).expect("id"));
    if let Some(ref s) = i.stdin { r = r.with_stdin(s); }
    if let Some(ref s) = i.stdout { r = r.with_stdout(s); }
    if let Some(ref s) = i.stderr { r = r.with_stderr(s); }
    r
}
fn info(i: &ClientIdentity) -> Info {
    Info { id: i.client_id().as_str().into(), stdin: i.stdin_screen_id().map(|s| s.into()), stdout: i.stdout_screen_id().map(|s| s.into()), stderr: i.stderr_screen_id().map(|s| s.into()) }
}
fn sel(s: &ClientSelector) -> (bool, String) {
    match s { ClientSelector::StrictlyBelow(c) => (true, c.as_str().into()), ClientSelector::AtOrBelow(c) => (false, c.as_str().into()) }
}
pub struct MsgConn { id: ClientIdentity }
impl server::MessageConnector for MsgConn {
    fn new(id: ClientIdentity) -> Self { MsgConn { id } }
    fn identity(&self) -> &ClientIdentity { &self.id }
}
pub struct OutConn { id: ScreenIdentity, got: B }
impl server::StdoutConnector for OutConn {
    fn new(id: ScreenIdentity) -> Self { OutConn { id, got: vec![] } }
    fn receive(&mut self, buf: &[u8]) { self.got.extend_from_slice(buf); }
}

pub trait Chain: Send + Sync + 'static + Sized {
    type M: server::MessageHandler<App<Self>>;
    type H: server::HandshakeHandler<App<Self>>;
}
pub struct App<C: Chain>(Arc<Mutex<World>>, PhantomData<C>);
impl<C: Chain> Clone for App<C> { fn clone(&self) -> Self { App(self.0.clone(), PhantomData) } }
impl<C: Chain> App<C> { fn log(&self, e: Ev) { self.0.lock().unwrap().log.push(e) } }
impl<C: Chain> Application for App<C> {
    type MessageConnector = MsgConn;
    type StdoutConnector = OutConn;
    type MessageHandler = C::M;
    type HandshakeHandler = C::H;
    fn notify(&self, n: &Notification) { match n { Notification::IncomingBytesDiscarded(b) => self.log(Ev::Discarded(b.to_vec())), _ => self.log(Ev::Odd("other notification".into())) } }
    fn register_client(&self, i: ClientIdentity) -> ClientCredentials {
        let c = ClientCredentials::generate();
        let mut w = self.0.lock().unwrap();
        w.log.push(Ev::Register(info(&i)));
        w.clients.push((info(&i), c.secret().into()));
        c
    }
    fn unregister_clients(&self, s: ClientSelector) {
        let mut w = self.0.lock().unwrap();
        let (strict, id) = sel(&s);
        w.log.push(Ev::Unregister(strict, id.clone()));
        w.clients.retain(|c| !(c.0.id.starts_with(&id) && !(strict && c.0.id == id)));
    }
    fn has_clients(&self, s: ClientSelector) -> bool { let (strict, id) = sel(&s); self.0.lock().unwrap().clients.iter().any(|c| c.0.id.starts_with(&id) && !(strict && c.0.id == id)) }
    fn authorize_client(&self, secret: &str) -> Option<ClientIdentity> { self.0.lock().unwrap().clients.iter().find(|c| c.1 == secret).map(|c| identity(&c.0)) }
    fn find_client(&self, id: ClientID<'_>) -> Option<ClientIdentity> { self.0.lock().unwrap().clients.iter().find(|c| c.0.id == id.as_str()).map(|c| identity(&c.0)) }
    fn authorize_stdin(&self, secret: &str) -> Option<ScreenIdentity> { self.0.lock().unwrap().stdins.iter().find(|c| c.0 == secret).map(|c| ScreenIdentity::new(&c.1)) }
    fn authorize_stdout(&self, secret: &str) -> Option<ScreenIdentity> { self.0.lock().unwrap().stdouts.iter().find(|c| c.0 == secret).map(|c| ScreenIdentity::new(&c.1)) }
}
pub struct Disp<C: Chain>(App<C>);
impl<C: Chain> Clone for Disp<C> { fn clone(&self) -> Self { Disp(self.0.clone()) } }
fn torn<C: Chain>(d: &Disp<C>, action: &dyn Fn(&mut Connection<App<C>, Disp<C>>), probes: &[String]) -> Vec<String> {
    let mut r = vec![];
    for p in probes {
        let who = Info { id: p.clone(), ..Info::default() };
        for k in 0..5 {
            let mk = || match k { 0 => ConnectionState::Msgio(MsgConn { id: identity(&who) }), 1 => ConnectionState::Handshake, 2 => ConnectionState::Stdin(ScreenIdentity::new(p)), 3 => ConnectionState::Stdout(OutConn { id: ScreenIdentity::new(p), got: vec![] }), _ => ConnectionState::Teardown };
            let mut c = Connection::new(d.clone(), 7);
            c.set_state(mk());
            let before = state(&mut c);
            action(&mut c);
            let after = state(&mut c);
            if before != after { r.push(format!("{:?} -> {:?}", before, after)); }
        }
    }
    r
}
impl<C: Chain> Dispatch<App<C>> for Disp<C> {
    type ConnectionID = u32;
    fn application(&self) -> &App<C> { &self.0 }
    fn enqueue_broadcast(&self, action: Box<dyn Fn(&mut Connection<App<C>, Self>) + Send + Sync>) {
        let probes = self.0 .0.lock().unwrap().probes.clone();
        let (x, y) = (torn(self, &*action, &probes), torn(self, &*action, &probes));
        if x != y { self.0.log(Ev::Odd("the broadcast does different things".into())); }
        self.0.log(Ev::Broadcast(x));
    }
    fn enqueue_message<M: EncodeMessage>(&self, conn: &mut Connection<App<C>, Self>, msg: &M) {
        if !conn.state().can_receive_messages() { self.0.log(Ev::Odd(format!("a message is queued on a connection in state {}", conn.state().type_name()))); return; }
        let mut buf = [0xA5u8; 1024];
        match msg.encode(&mut buf) {
            Ok(n) => match oracle::parse(&buf[..n]) {
                Ok((k, e)) if k == n => self.0.log(Ev::Sent(e.iter().map(|x| buf[x.0..x.1].to_vec()).collect())),
                _ => self.0.log(Ev::Odd(format!("not a message: {}", show(&buf[..n])))),
            },
            Err(_) => { self.0.log(Ev::TooLong); conn.set_state(ConnectionState::Teardown); }
        }
    }
    fn enqueue_stdin(&self, _: &mut Connection<App<C>, Self>, _: &[u8]) { self.0.log(Ev::Odd("input queued".into())) }
}
fn state<C: Chain>(c: &mut Connection<App<C>, Disp<C>>) -> St {
    match c.state() {
        ConnectionState::Handshake => St::Handshake,
        ConnectionState::Msgio(k) => St::Msgio(info(&k.id)),
        ConnectionState::Stdin(i) => St::Stdin(i.screen_id().into()),
        ConnectionState::Stdout(k) => St::Stdout(k.id.screen_id().into(), k.got.clone()),
        ConnectionState::Teardown => St::Teardown,
    }
}

// ---------------------------------------------------------------- handlers of the harness
/// what the handler of the harness does with a message, by the name behind the dot
fn reaction(t: &str) -> Option<&str> { if t.starts_with("test1.") { Some(&t[6..]) } else { None } }
macro_rules! test_handler { ($name:ident) => {
    /// records what it is given; messages of the module test1 determine what it does
    #[derive(Default)] pub struct $name;
    impl<C: Chain> Handler<App<C>> for $name {
        fn handle<D: Dispatch<App<C>>>(&self, msg: &Message, conn: &mut Connection<App<C>, D>) -> Result<(), HandlerError> {
            let mut e = vec![msg.parsed_type().as_str().as_bytes().to_vec()];
            for a in msg.arguments() { e.push(a.to_vec()); }
            conn.dispatch().application().log(Ev::Handled(e));
            let t = msg.parsed_type().as_str().to_string();
            let who = Info { id: "t1".into(), ..Info::default() };
            match reaction(&t) {
                Some("ok") => Ok(()),
                Some("msgio") => { conn.set_state(ConnectionState::Msgio(server::MessageConnector::new(identity(&who)))); Ok(()) }
                Some("stdin") => { conn.set_state(ConnectionState::Stdin(ScreenIdentity::new("s1"))); Ok(()) }
                Some("stdout") => { conn.set_state(ConnectionState::Stdout(server::StdoutConnector::new(ScreenIdentity::new("s2")))); Ok(()) }
                Some("teardown") => { conn.set_state(ConnectionState::Teardown); Ok(()) }
                Some("teardown-invalid") => { conn.set_state(ConnectionState::Teardown); Err(HandlerError::InvalidMessage) }
                Some("teardown-unknown") => { conn.set_state(ConnectionState::Teardown); Err(HandlerError::UnknownMessageType) }
                Some("stdin-invalid") => { conn.set_state(ConnectionState::Stdin(ScreenIdentity::new("s1"))); Err(HandlerError::InvalidMessage) }
                Some("stdout-unknown") => { conn.set_state(ConnectionState::Stdout(server::StdoutConnector::new(ScreenIdentity::new("s2")))); Err(HandlerError::UnknownMessageType) }
                Some("invalid") => Err(HandlerError::InvalidMessage),
                _ => Err(HandlerError::UnknownMessageType),
            }
        }
        fn handle_error<D: Dispatch<App<C>>>(&self, _: &ParseError, conn: &mut Connection<App<C>, D>) { conn.dispatch().application().log(Ev::HandledErr); }
    }
} }
test_handler!(TestM);
test_handler!(TestH);
fn test_version(m: &str) -> Option<u16> { match m { "test1" => Some(7), "test65535" => Some(65535), "posix2" => Some(0), _ => None } }
impl<C: Chain> server::MessageHandler<App<C>> for TestM {
    fn get_supported_module_version(&self, m: &ModuleIdentifier<'_>) -> Option<u16> { test_version(m.as_str()) }
}
impl<C: Chain> server::HandshakeHandler<App<C>> for TestH {}
impl<C: Chain> server::core::MessageHandlerExt<App<C>> for TestM {}
pub struct Bare; impl Chain for Bare { type M = TestM; type H = TestH; }
pub struct Base; impl Chain for Base { type M = server::core::MessageHandler<RejectHandler>; type H = server::core::HandshakeHandler<RejectHandler>; }
pub struct Both; impl Chain for Both { type M = server::core::MessageHandler<TestM>; type H = server::core::HandshakeHandler<TestH>; }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ch { Bare, Base, Both }

// ---------------------------------------------------------------- the receive buffer
struct Buf { b: B, o: usize }
impl ReceiveBuffer for Buf {
    fn contents(&self) -> &[u8] { &self.b[self.o..] }
    fn discard(&mut self, n: usize) { if n > self.b.len() - self.o { panic!("discards {} of {} bytes", n, self.b.len() - self.o); } self.o += n; }
}

// ---------------------------------------------------------------- the model
fn cid_ok(b: &[u8]) -> bool { oracle::client_id(b) }
fn txt(b: &[u8]) -> Option<String> { if oracle::utf8_ok(b) { String::from_utf8(b.to_vec()).ok() } else { None } }
fn opt(s: String) -> Option<String> { if s.is_empty() { None } else { Some(s) } }
fn fld(o: &Option<String>) -> B { o.clone().unwrap_or_default().into_bytes() }
enum Ans { Ok, Invalid, Unknown }
struct Model { ch: Ch, w: World, st: St, log: Vec<Ev> }
impl Model {
    fn send(&mut self, m: Vec<B>) { if oracle::message(&m).len() <= 1024 { self.log.push(Ev::Sent(m)) } else { self.log.push(Ev::TooLong); self.st = St::Teardown; } }
    fn test(&mut self, m: &[B]) -> Ans {
        self.log.push(Ev::Handled(m.to_vec()));
        let t = String::from_utf8(m[0].clone()).unwrap();
        match reaction(&t) {
            Some("ok") => Ans::Ok,
            Some("msgio") => { self.st = St::Msgio(Info { id: "t1".into(), ..Info::default() }); Ans::Ok }
            Some("stdin") => { self.st = St::Stdin("s1".into()); Ans::Ok }
            Some("stdout") => { self.st = St::Stdout("s2".into(), vec![]); Ans::Ok }
            Some("teardown") => { self.st = St::Teardown; Ans::Ok }
            Some("teardown-invalid") => { self.st = St::Teardown; Ans::Invalid }
            Some("teardown-unknown") => { self.st = St::Teardown; Ans::Unknown }
            Some("stdin-invalid") => { self.st = St::Stdin("s1".into()); Ans::Invalid }
            Some("stdout-unknown") => { self.st = St::Stdout("s2".into(), vec![]); Ans::Unknown }
            Some("invalid") => Ans::Invalid,
            _ => Ans::Unknown,
        }
    }
    fn version(&self, m: &str) -> Option<u16> {
        if self.ch != Ch::Bare && (m == "core1" || m == "posix1") { return Some(0); }
        if self.ch != Ch::Base { test_version(m) } else { None }
    }
    fn have(&mut self, m: &str) { let t = match self.version(m) { Some(v) => format!("{}.{}", m, v), None => m.to_string() }; self.send(vec![b"have".to_vec(), t.into_bytes()]); }
    fn next(&mut self, m: &[B]) -> Ans { if self.ch == Ch::Base { Ans::Unknown } else { self.test(m) } }
    fn handshake(&mut self, m: &[B]) -> Ans {
        if self.ch == Ch::Bare { return self.test(m); }
        let t: &[u8] = &m[0];
        if t != b"posix1.stdin-hello" && t != b"posix1.stdout-hello" && t != b"posix1.client-hello" { return self.next(m); }
        let s = match (m.len(), m.get(1).and_then(|x| txt(x))) { (2, Some(s)) => s, _ => return Ans::Invalid };
        match t {
            b"posix1.stdin-hello" => match self.w.stdins.iter().find(|c| c.0 == s) { Some(c) => { self.st = St::Stdin(c.1.clone()); Ans::Ok } None => Ans::Invalid },
            b"posix1.stdout-hello" => match self.w.stdouts.iter().find(|c| c.0 == s) { Some(c) => { self.st = St::Stdout(c.1.clone(), vec![]); Ans::Ok } None => Ans::Invalid },
            _ => match self.w.clients.iter().find(|c| c.1 == s).cloned() {
                Some(c) => { let i = c.0; self.st = St::Msgio(i.clone()); self.send(vec![b"posix1.server-hello".to_vec(), i.id.clone().into_bytes(), fld(&i.stdin), fld(&i.stdout), fld(&i.stderr)]); Ans::Ok }
                None => Ans::Invalid,
            },
        }
    }
    fn message(&mut self, m: &[B]) -> Ans {
        if self.ch == Ch::Bare { return self.test(m); }
        let own = match self.st { St::Msgio(ref i) => i.id.clone(), _ => unreachable!() };
        let lower = |x: &[u8]| x.len() > own.len() && x.starts_with(own.as_bytes());
        match &m[0][..] {
            b"want" => { if m.len() != 2 || oracle::module(&m[1]).is_none() { return Ans::Invalid; } self.have(&String::from_utf8(m[1].clone()).unwrap()); Ans::Ok }
            b"core1.client-make" => {
                if m.len() != 5 || !cid_ok(&m[1]) { return Ans::Invalid; }
                let (a, b, c) = match (txt(&m[2]), txt(&m[3]), txt(&m[4])) { (Some(a), Some(b), Some(c)) => (a, b, c), _ => return Ans::Invalid };
                let id = txt(&m[1]).unwrap();
                if !lower(&m[1]) || self.w.below(&id) { return Ans::Invalid; }
                let i = Info { id, stdin: opt(a), stdout: opt(b), stderr: opt(c) };
                self.log.push(Ev::Register(i.clone()));
                self.w.clients.push((i, "?".into()));
                self.send(vec![b"core1.client-new".to_vec(), b"?".to_vec()]);
                Ans::Ok
            }
            b"core1.client-end" => {
                if m.len() != 2 || !cid_ok(&m[1]) || !lower(&m[1]) { return Ans::Invalid; }
                let id = txt(&m[1]).unwrap();
                self.w.clients.retain(|c| !c.0.id.starts_with(&id));
                self.log.push(Ev::Unregister(false, id.clone()));
                let r = self.w.probes.iter().filter(|p| p.starts_with(&id)).map(|p| format!("{:?} -> {:?}", St::Msgio(Info { id: p.clone(), ..Info::default() }), St::Teardown)).collect();
                self.log.push(Ev::Broadcast(r));
                Ans::Ok
            }
            b"posix1.stdin-hello" | b"posix1.stdout-hello" | b"posix1.client-hello" => Ans::Invalid,
            _ => self.next(m),
        }
    }
    /// consumes what it can; answers how much is left
    fn feed(&mut self, b: &[u8]) -> usize {
        let mut o = 0;
        while o < b.len() {
            let x = &b[o..];
            match self.st {
                St::Teardown => break,
                St::Stdin(_) => { self.st = St::Teardown; self.log.push(Ev::Discarded(x.to_vec())); o = b.len(); continue; }
                St::Stdout(_, ref mut got) => { got.extend_from_slice(x); o = b.len(); continue; }
                _ => {}
            }
            let hs = self.st == St::Handshake;
            match oracle::parse(x) {
                Err((Kind::Eof, _)) => break,
                Err(_) => {
                    if self.ch != Ch::Base { self.log.push(Ev::HandledErr); }
                    if hs { self.st = St::Teardown; }
                    let k = x[1..].iter().position(|c| *c == b'{').map(|k| k + 1).unwrap_or(x.len());
                    self.log.push(Ev::Discarded(x[..k].to_vec()));
                    o += k;
                }
                Ok((n, e)) => {
                    let m: Vec<B> = e.iter().map(|y| x[y.0..y.1].to_vec()).collect();
                    o += n;
                    let a = if hs { self.handshake(&m) } else { self.message(&m) };
                    let talks = matches!(self.st, St::Handshake | St::Msgio(_));
                    match a {
                        Ans::Ok => {}
                        _ if !talks => {}
                        _ if hs => self.st = St::Teardown,
                        Ans::Invalid => self.send(vec![b"nope".to_vec(), m[0].clone()]),
                        Ans::Unknown => match oracle::scoped(&m[0]) {
                            Some((d, _)) => { let t = String::from_utf8(m[0][..d].to_vec()).unwrap(); self.have(&t) }
                            None => self.send(vec![b"nope".to_vec(), m[0].clone()]),
                        },
                    }
                }
            }
        }
        b.len() - o
    }
}

#[derive(Clone)]
struct Case { ch: Ch, w: World, st: St, chunks: Vec<B> }
fn real<C: Chain>(k: &Case) -> (Vec<Ev>, St, B, World) {
    let app: App<C> = App(Arc::new(Mutex::new(k.w.clone())), PhantomData);
    let mut c = Connection::new(Disp(app.clone()), 1);
    match k.st {
        St::Handshake => {}
        St::Msgio(ref i) => c.set_state(ConnectionState::Msgio(MsgConn { id: identity(i) })),
        St::Stdin(ref i) => c.set_state(ConnectionState::Stdin(ScreenIdentity::new(i))),
        St::Stdout(ref i, ref g) => c.set_state(ConnectionState::Stdout(OutConn { id: ScreenIdentity::new(i), got: g.clone() })),
        St::Teardown => c.set_state(ConnectionState::Teardown),
    }
    let mut b = Buf { b: vec![], o: 0 };
    for x in &k.chunks { b.b.drain(..b.o); b.o = 0; b.b.extend_from_slice(x); c.handle_incoming(&mut b); }
    let s = state(&mut c);
    let w = app.0.lock().unwrap().clone();
    (w.log.clone(), s, b.contents().to_vec(), w)
}
fn run(k: &Case) -> (Vec<Ev>, St, B, World) { match k.ch { Ch::Bare => real::<Bare>(k), Ch::Base => real::<Base>(k), Ch::Both => real::<Both>(k) } }
fn model(k: &Case) -> (Vec<Ev>, St, B, World) {
    let mut m = Model { ch: k.ch, w: k.w.clone(), st: k.st.clone(), log: vec![] };
    let mut b: B = vec![];
    for x in &k.chunks { b.extend_from_slice(x); let n = m.feed(&b); let d = b.len() - n; b.drain(..d); }
    (m.log, m.st, b, m.w)
}
/// secrets of registered clients are chosen by the application
fn norm(log: &[Ev], w: &World, old: &World) -> Vec<Ev> {
    let mut n = old.clients.len();
    let _ = &mut n;
    log.iter().map(|e| match e {
        Ev::Sent(m) if m.len() == 2 && m[0] == b"core1.client-new" => if w.clients.iter().any(|c| c.1.as_bytes() == &m[1][..]) || log.iter().any(|x| matches!(x, Ev::Unregister(..))) { Ev::Sent(vec![m[0].clone(), b"?".to_vec()]) } else { Ev::Odd(format!("client-new reports {}, which is not the secret", show(&m[1]))) },
        x => x.clone(),
    }).collect()
}
fn describe(k: &Case) -> String {
    format!("{:?} handlers, state {:?}, registered {:?}, input {}", k.ch, k.st, k.w.clients.iter().map(|c| &c.0.id).collect::<Vec<_>>(), k.chunks.iter().map(|b| show(b)).collect::<Vec<_>>().join(" then "))
}
fn case(c: &mut Ctx, k: &Case, keep: &dyn Fn(&Ev) -> bool, state: bool, rest: bool) {
    let mut key = format!("{:?}{:?}{:?}", k.ch, k.st, k.w.clients).into_bytes();
    for x in &k.chunks { key.extend_from_slice(x); key.push(0); }
    c.case(fnv(&key), k.chunks.iter().all(|x| x.is_empty()), &|| describe(k), &mut || {
        let (a, sa, ra, wa) = run(k);
        let (b, sb, rb, wb) = model(k);
        if let Some(x) = a.iter().find(|x| matches!(x, Ev::Odd(_))) { return Err(format!("{:?}", x)); }
        let (mut a, mut b): (Vec<Ev>, Vec<Ev>) = (norm(&a, &wa, &k.w).into_iter().filter(|e| keep(e)).collect(), b.into_iter().filter(|e| keep(e)).collect());
        for l in [&mut a, &mut b].iter_mut() { for i in 1..l.len() { if matches!((&l[i - 1], &l[i]), (Ev::Broadcast(_), Ev::Unregister(..))) { l.swap(i - 1, i); } } }
        if a != b { return Err(format!("observed {}, expected {}", short(&a), short(&b))); }
        if state && sa != sb { return Err(format!("ends in state {:?}, expected {:?}", sa, sb)); }
        if rest && ra != rb { return Err(format!("leaves {} in the buffer, expected {}", show(&ra), show(&rb))); }
        let (ca, cb): (Vec<&Info>, Vec<&Info>) = (wa.clients.iter().map(|x| &x.0).collect(), wb.clients.iter().map(|x| &x.0).collect());
        if keep(&Ev::Register(Info::default())) && ca != cb { return Err(format!("registered clients are {:?}, expected {:?}", ca, cb)); }
        Ok(())
    });
}
fn splits(c: &mut Ctx, b: &[u8]) -> Vec<B> {
    match c.rng.below(4) {
        0 => vec![b.to_vec()],
        1 if b.len() < 80 => b.iter().map(|x| vec![*x]).collect(),
        _ => { let mut p: Vec<usize> = (0..1 + c.rng.below(4)).map(|_| c.rng.below(b.len() + 1)).collect(); p.push(0); p.push(b.len()); p.sort(); (1..p.len()).map(|i| b[p[i - 1]..p[i]].to_vec()).collect() }
    }
}
fn world() -> World {
    let i = |id: &str| Info { id: id.into(), stdin: Some(format!("in{}", id)), stdout: None, stderr: Some("e".into()) };
    World {
        clients: vec![(i("a"), "ca".into()), (i("ab1"), "cab1".into()), (Info { id: "b".into(), ..Info::default() }, "cb".into()), (Info { id: "c9".into(), stdin: Some("x".repeat(990)), ..Info::default() }, "long".into()), (Info { id: "d".into(), stdin: Some("\u{e9}".into()), stdout: Some("{3|".into()), stderr: Some(",".into()) }, "\u{e9}\u{20ac}".into()), (Info { id: "e".into(), ..Info::default() }, "all".into()), (Info { id: "f".into(), ..Info::default() }, "".into())],
        stdins: vec![("si".into(), "screen1".into()), ("all".into(), "screen2".into()), ("si\0".into(), "screen3".into())],
        stdouts: vec![("so".into(), "screen4".into()), ("all".into(), "screen5".into())],
        probes: vec!["a", "ab", "ab1", "ab12", "abc", "b", "b1", "b12", "b2", "B1", "c9", "t1", "t1x", "t1xy", "t2", "A", "0", "a1", "a12", "a123", "a2"].into_iter().map(|s| s.to_string()).collect(),
        log: vec![],
    }
}
fn client(id: &str) -> St { St::Msgio(Info { id: id.into(), ..Info::default() }) }

pub fn c14(mut c: Ctx) -> ! {
    let keep = |e: &Ev| matches!(e, Ev::Handled(_) | Ev::HandledErr | Ev::Discarded(_));
    let w = world();
    let m = |e: &[&[u8]]| oracle::message(e);
    // long inputs: processing must not depend on the size of the stack
    for unit in [&m(&[b"test1.ok", b"x"])[..], b"{", b"}x{", b"{1|4:want,}{"] {
        let n = if c.thorough { 1_000_000 } else { 300_000 };
        let mut b: B = vec![]; for _ in 0..n { b.extend_from_slice(unit); }
        let k = Case { ch: Ch::Bare, w: w.clone(), st: client("t1"), chunks: vec![b] };
        c.case(fnv(unit), false, &|| format!("{} times {}", n, show(unit)), &mut || {
            let (a, _, ra, _) = run(&k);
            let (b, _, rb, _) = model(&k);
            let f = |l: Vec<Ev>| l.into_iter().filter(|e| matches!(e, Ev::Handled(_) | Ev::Discarded(_))).collect::<Vec<_>>();
            if f(a) != f(b) || ra != rb { Err("the handled or discarded input differs".into()) } else { Ok(()) }
        });
    }
    let pieces: Vec<B> = vec![m(&[b"test1.ok"]), m(&[b"test1.ok", b"}{"]), m(&[b"test1.ok", b"", b"\xff\0"]), m(&[b"want", b"core1"]), m(&[b"have"]), m(&[b"nope", b"x"]), m(&[b"test1.invalid"]), m(&[b"a1.b", b"{1|4:want,}"]), m(&[b"test1.unknown"]),
        m(&[b"test1.stdin"]), m(&[b"test1.stdout"]), m(&[b"test1.teardown"]), m(&[b"test1.teardown-invalid"]), m(&[b"test1.teardown-unknown"]), m(&[b"test1.stdin-invalid"]), m(&[b"test1.stdout-unknown"]), m(&[b"test1.msgio"]),
        m(&[b"test1.ok", &[b'y'; 1000]]), m(&[b"test1.ok", &[b'{'; 40]]), b"x".to_vec(), b"{".to_vec(), b"}".to_vec(), b"{{".to_vec(), b"{1|".to_vec(), b"{x".to_vec(), b"}{1|4:wanT,}".to_vec(), b"{0|}".to_vec(), b"junk junk".to_vec(), b"{2|4:want,".to_vec(), b"\0\0\0".to_vec(), b"{1|5:core1,}".to_vec(), b"{99999999999999999999999|".to_vec(), b"{01|".to_vec(), b"\n".to_vec()];
    // in the handshake: only what leaves it, or what the handler takes
    let quiet: Vec<B> = vec![m(&[b"test1.ok"]), m(&[b"test1.ok", b"}{"]), m(&[b"test1.msgio"]), m(&[b"test1.stdout"]), m(&[b"test1.stdin"]), m(&[b"test1.teardown"])];
    let starts: Vec<St> = vec![client("t1"), client("t1"), client("t1"), St::Handshake, St::Stdin("s".into()), St::Stdout("s".into(), b"..".to_vec()), St::Teardown];
    for st in &starts { for p in &pieces { for q in &pieces {
        if *st == St::Handshake && !(quiet.contains(p) && quiet.contains(q)) { continue; }
        let mut b = p.clone(); b.extend_from_slice(q);
        let k = Case { ch: Ch::Bare, w: w.clone(), st: st.clone(), chunks: vec![b.clone()] };
        case(&mut c, &k, &keep, true, true);
        if c.done() { break; }
        let k = Case { chunks: vec![p.clone(), q.clone()], ..k };
        case(&mut c, &k, &keep, true, true);
        let k = Case { chunks: splits(&mut c, &b), ..k };
        case(&mut c, &k, &keep, true, true);
    } } }
    let szs = gen::sizes(&c);
    let rounds = if c.thorough { 3_000_000 } else { 250_000 };
    for _ in 0..rounds {
        if c.done() { break; }
        let st = c.rng.pick(&starts).clone();
        let mut b: B = vec![];
        if st == St::Handshake { for _ in 0..c.rng.below(4) { let x = c.rng.pick(&quiet).clone(); b.extend_from_slice(&x); if x == quiet[2] { break; } } if !b.ends_with(&quiet[2]) { let x = quiet[2 + c.rng.below(4)].clone(); b.extend_from_slice(&x); } }
        for _ in 0..1 + c.rng.below(6) {
            let mut x = match c.rng.below(4) { 0 => { let mut e = gen::elems(&mut c, &szs); if e[0].len() > 200 { e[0].truncate(3); } oracle::message(&e) } _ => c.rng.pick(&pieces).clone() };
            if c.rng.chance(1, 5) { gen::mutate(&mut c, &mut x); }
            b.extend_from_slice(&x);
        }
        if st == St::Handshake && !matches!(oracle::parse(&b), Ok(_)) { continue; }
        if b.len() > 6000 { continue; }
        let k = Case { ch: Ch::Bare, w: w.clone(), st, chunks: splits(&mut c, &b) };
        case(&mut c, &k, &keep, true, true);
    }
    c.finish("each case feeds a byte stream in given reads to a connection whose handlers record what they see and do what the message says; handled messages, parse errors, discarded bytes, the final state and the rest of the buffer are compared with an independent model; non-trivial: distinct non-empty inputs", "streams up to 6000 bytes and 8 pieces, plus repetitions of up to 1000000 messages")
}
pub fn c15(mut c: Ctx) -> ! {
    let keep = |e: &Ev| matches!(e, Ev::Sent(_) | Ev::TooLong | Ev::Register(_) | Ev::Unregister(..) | Ev::Broadcast(_) | Ev::Handled(_));
    let w = world();
    let secrets: Vec<B> = vec![b"ca".to_vec(), b"cab1".to_vec(), b"si".to_vec(), b"so".to_vec(), b"all".to_vec(), b"".to_vec(), b"long".to_vec(), "\u{e9}\u{20ac}".into(), b"\xff".to_vec(), b"ca\0".to_vec(), b"si\0".to_vec(), b"CA".to_vec(), b"c".to_vec(), b"a".to_vec(), b"screen1".to_vec(), b" ca".to_vec(), vec![b'z'; 1500], b"al\xc3".to_vec()];
    let types = ["posix1.client-hello", "posix1.stdin-hello", "posix1.stdout-hello", "posix1.server-hello", "posix1.parent-hello", "want", "have", "nope", "core1.client-make", "core1.client-end", "core1.client-new", "posix2.client-hello", "core1.client-hello", "posix1.client-hell", "posix1.Client-hello", "posix1.stdin-hello2", "a1.b", "test1.ok", "test1.invalid", "test1.unknown"];
    let mut firsts: Vec<B> = vec![];
    for t in &types {
        firsts.push(oracle::message(&[t.as_bytes()]));
        for s in &secrets { firsts.push(oracle::message(&[t.as_bytes(), s])); firsts.push(oracle::message(&[t.as_bytes(), s, b""])); firsts.push(oracle::message(&[t.as_bytes(), b"", s])); firsts.push(oracle::message(&[t.as_bytes(), s, s])); }
        firsts.push(oracle::message(&[t.as_bytes(), b"ca", b"x", b"y", b"z"]));
    }
    for j in [&b"x"[..], b"{x", b"}", b"{0|}", b"{1|4:xant,}", b"{2|19:posix1.client-hello,2:ca;}", b"{2|19:posix1.client-hello,2:ca,}}", b"{2|19:posix1.client-hello,02:ca,}", b"{1|19:posix1.client-hello,2:ca,}", b"{3|19:posix1.client-hello,2:ca,}", b"{2|19:posix1.client-hello,2:ca,", b"{"].iter() { firsts.push(j.to_vec()); }
    let seconds: Vec<B> = vec![b"".to_vec(), oracle::message(&[&b"posix1.client-hello"[..], b"ca"]), oracle::message(&[&b"posix1.stdin-hello"[..], b"si"]), oracle::message(&[&b"posix1.stdout-hello"[..], b"so"]), oracle::message(&[&b"want"[..], b"core1"]), b"{".to_vec(), b"data".to_vec(), b"}{2|19:posix1.client-hello,2:ca,}".to_vec()];
    'o: for ch in [Ch::Base, Ch::Both] { for f in &firsts { for s in &seconds {
        let mut b = f.clone(); b.extend_from_slice(s);
        let k = Case { ch, w: w.clone(), st: St::Handshake, chunks: vec![b.clone()] };
        hs_case(&mut c, &k, &keep);
        if c.done() { break 'o; }
        let k = Case { chunks: splits(&mut c, &b), ..k };
        hs_case(&mut c, &k, &keep);
    } } }
    let rounds = if c.thorough { 3_000_000 } else { 300_000 };
    for _ in 0..rounds {
        if c.done() { break; }
        let ch = *c.rng.pick(&[Ch::Base, Ch::Both]);
        let mut b = c.rng.pick(&firsts).clone();
        if c.rng.chance(1, 2) { gen::mutate(&mut c, &mut b); }
        if c.rng.chance(1, 2) { let x = c.rng.pick(&firsts).clone(); b.extend_from_slice(&x); }
        let k = Case { ch, w: w.clone(), st: St::Handshake, chunks: splits(&mut c, &b) };
        hs_case(&mut c, &k, &keep);
    }
    c.finish("each case feeds a byte stream in given reads to a connection in the handshake state, with applications that authorize some secrets for some purposes; sent messages, calls that change the application, and the mode reached are compared with an independent model; non-trivial: distinct inputs", "streams up to 3100 bytes")
}
/// cut off behind what ends the handshake: what happens afterwards is not this property's business
fn hs_case(c: &mut Ctx, k: &Case, keep: &dyn Fn(&Ev) -> bool) {
    let mut m = Model { ch: k.ch, w: k.w.clone(), st: St::Handshake, log: vec![] };
    let mut b: B = vec![];
    let mut chunks: Vec<B> = vec![];
    for x in &k.chunks {
        b.extend_from_slice(x);
        let n = match oracle::parse(&b) { Ok((n, _)) => n, Err((Kind::Eof, _)) => { chunks.push(x.clone()); continue; } Err(_) => b.len() };
        if n < b.len() { let cut = b.len() - n; let l = x.len() - cut.min(x.len()); let y = x[..l].to_vec(); chunks.push(y); } else { chunks.push(x.clone()); }
        let all: B = chunks.concat();
        m.feed(&all);
        if m.st != St::Handshake { break; }
        // the handler kept the connection in the handshake: go on
        b.clear(); m.st = St::Handshake; m.log.clear();
        if chunks.concat().len() < k.chunks.concat().len() { break; }
    }
    // once with, once without what follows: a torn down connection must not come back
    let cutoff = Case { chunks, ..k.clone() };
    case(c, &cutoff, keep, true, false);
    if model(&cutoff).1 == St::Teardown { case(c, k, keep, true, false); }
}
pub fn c16(mut c: Ctx) -> ! {
    let keep = |e: &Ev| matches!(e, Ev::Sent(_) | Ev::TooLong | Ev::Handled(_));
    let w = world();
    let ids: Vec<B> = ["core1", "posix1", "core2", "posix2", "test1", "test2", "test65535", "core01", "core0", "core", "1core", "core1.0", "core1.x", "Core1", "core65535", "core65536", "_1", "-1", "a-b_c77", "core+1", "core1 ", "", "core11", "core12345", "posix12", "posix", "want", "\u{e9}1", "posix10"].iter().map(|s| s.as_bytes().to_vec()).collect();
    let mut firsts: Vec<B> = vec![];
    for t in ["want", "have", "nope", "posix1.client-hello", "posix1.stdin-hello", "posix1.stdout-hello", "posix1.server-hello", "core1.unknown", "posix1.unknown", "core2.client-make", "test1.ok", "test1.invalid", "test1.unknown", "test2.x", "test65535.x", "posix2.y", "a1.b", "a-b_c77.d"].iter() {
        firsts.push(oracle::message(&[t.as_bytes()]));
        for i in &ids { firsts.push(oracle::message(&[t.as_bytes(), i])); firsts.push(oracle::message(&[t.as_bytes(), i, i])); firsts.push(oracle::message(&[t.as_bytes(), i, b""])); }
    }
    for n in [100usize, 500, 980, 990, 995, 998, 999, 1000, 1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008, 1009, 1010, 1011, 1012, 1013, 1014, 1020, 1100] {
        let mut x = vec![b'a'; n]; x.push(b'1');
        firsts.push(oracle::message(&[&b"want"[..], &x]));
        let mut y = x.clone(); y.extend_from_slice(b".b"); firsts.push(oracle::message(&[&y]));
        let mut z = b"test1.".to_vec(); z.extend_from_slice(&x[..n]); firsts.push(oracle::message(&[&z])); firsts.push(oracle::message(&[&b"posix1.client-hello"[..], &z]));
    }
    for i in 1..=300u32 { firsts.push(oracle::message(&[&b"want"[..], format!("core{}", i).as_bytes()])); firsts.push(oracle::message(&[format!("posix{}.q", i).as_bytes()])); }
    for m in ["core1.client-make", "core1.client-end"].iter() { for a in [0usize, 1, 2, 3, 5, 6].iter() { let mut e: Vec<B> = vec![m.as_bytes().to_vec()]; for _ in 0..*a { e.push(b"-".to_vec()); } firsts.push(oracle::message(&e)); } }
    'o: for ch in [Ch::Base, Ch::Both, Ch::Bare] { for f in &firsts {
        let k = Case { ch, w: w.clone(), st: client("t1"), chunks: vec![f.clone()] };
        case(&mut c, &k, &keep, true, false);
        if c.done() { break 'o; }
    } }
    let szs = gen::sizes(&c);
    let rounds = if c.thorough { 3_000_000 } else { 300_000 };
    for _ in 0..rounds {
        if c.done() { break; }
        let ch = *c.rng.pick(&[Ch::Base, Ch::Both, Ch::Bare]);
        let mut b: B = vec![];
        for _ in 0..1 + c.rng.below(3) {
            let x = match c.rng.below(4) {
                0 => { let mut e = gen::elems(&mut c, &szs); if e[0].starts_with(b"core1.client") { e[0] = b"want".to_vec(); } oracle::message(&e) }
                1 => { let i = c.rng.pick(&ids).clone(); let mut t = i.clone(); t.extend_from_slice(*c.rng.pick(&[&b".x"[..], b".", b".want", b".x.y", b".-", b"._", b""])); oracle::message(&[&t[..], &i]) }
                2 => { let mut x = c.rng.pick(&ids).clone(); gen::mutate(&mut c, &mut x); oracle::message(&[&b"want"[..], &x]) }
                _ => c.rng.pick(&firsts).clone(),
            };
            if oracle::parse(&x).is_ok() { b.extend_from_slice(&x); }
        }
        let k = Case { ch, w: w.clone(), st: client("t1"), chunks: vec![b] };
        case(&mut c, &k, &keep, true, false);
    }
    c.finish("each case feeds valid messages to a connection in message mode; the replies and what reaches the next handler are compared with an independent model; non-trivial: distinct inputs", "up to 3 messages of up to 2100 bytes")
}
pub fn c17(mut c: Ctx) -> ! {
    let keep = |e: &Ev| matches!(e, Ev::Sent(_) | Ev::TooLong | Ev::Register(_) | Ev::Unregister(..) | Ev::Broadcast(_));
    let ids: Vec<B> = ["a", "ab", "ab1", "ab12", "abc", "abcd", "b", "b1", "B", "A", "a1", "a2", "a12", "0", "00", "t1", "t1x", "t1xy", "t2", "T1x", "", "a b", "ab-", "ab_", "\u{e9}", "ab1\0", "ab.1", "zzzzzzzzzzzzzzzzzzzzzzzzzz"].iter().map(|s| s.as_bytes().to_vec()).collect();
    let good: Vec<String> = ids.iter().filter(|i| cid_ok(i)).map(|i| String::from_utf8(i.clone()).unwrap()).collect();
    let screens: Vec<B> = vec![b"".to_vec(), b"s".to_vec(), "\u{e9}{|".into(), b"\xff".to_vec(), b"\xc3".to_vec(), b"0".to_vec(), vec![b'q'; 300]];
    let mut worlds: Vec<World> = vec![];
    for reg in [&[][..], &["ab"], &["abc"], &["a"], &["b", "t1"], &["ab12", "t1x"], &["a", "ab", "abc", "b"], &["A", "B"]].iter() {
        let mut w = world();
        w.clients = reg.iter().map(|i| (Info { id: i.to_string(), ..Info::default() }, format!("secret-{}", i))).collect();
        worlds.push(w);
    }
    let msg = |c: &mut Ctx, kind: usize, id: &[u8]| -> B {
        match kind {
            0 => { let s: Vec<B> = (0..3).map(|_| if c.rng.chance(2, 3) { screens[c.rng.below(2)].clone() } else { c.rng.pick(&screens).clone() }).collect(); oracle::message(&[&b"core1.client-make"[..], id, &s[0], &s[1], &s[2]]) }
            1 => oracle::message(&[&b"core1.client-end"[..], id]),
            2 => oracle::message(&[&b"core1.client-make"[..], id]),
            3 => oracle::message(&[&b"core1.client-end"[..], id, b""]),
            4 => oracle::message(&[&b"core1.client-make"[..], id, b"", b""]),
            5 => oracle::message(&[&b"core1.client-make"[..], id, b"", b"", b"", b""]),
            _ => oracle::message(&[&b"core1.client-end"[..]]),
        }
    };
    'o: for w in &worlds { for own in &good { for id in &ids { for kind in 0..2 {
        for _ in 0..2 {
            let m = msg(&mut c, kind, id);
            let k = Case { ch: Ch::Base, w: w.clone(), st: client(own), chunks: vec![m] };
            case(&mut c, &k, &keep, true, false);
            if c.done() { break 'o; }
        }
    } } } }
    let rounds = if c.thorough { 3_000_000 } else { 200_000 };
    for _ in 0..rounds {
        if c.done() { break; }
        let w = c.rng.pick(&worlds).clone();
        let own = c.rng.pick(&good).clone();
        let mut b: B = vec![];
        for _ in 0..1 + c.rng.below(5) {
            let kind = *c.rng.pick(&[0, 0, 0, 1, 1, 1, 2, 3, 4, 5, 6]);
            let id: B = match c.rng.below(6) {
                0 => c.rng.pick(&ids).clone(),
                1 => { let mut x = c.rng.pick(&ids).clone(); gen::mutate(&mut c, &mut x); x }
                2 => { let n = c.rng.below(own.len() + 1); own.as_bytes()[..n].to_vec() }
                3 => { let mut x = own.clone().into_bytes(); let i = c.rng.below(x.len()); x[i] ^= 1 << c.rng.below(8); x.push(b'x'); x }
                _ => { let mut x = own.clone().into_bytes(); for _ in 0..1 + c.rng.below(3) { x.push(*c.rng.pick(b"ab1xZ")); } x }
            };
            let m = msg(&mut c, kind, &id);
            b.extend_from_slice(&m);
        }
        let ch = *c.rng.pick(&[Ch::Base, Ch::Both]);
        let k = Case { ch, w, st: client(&own), chunks: vec![b] };
        case(&mut c, &k, &keep, true, false);
    }
    c.finish("each case feeds client-make and client-end messages to the connection of one client, with a registry; registrations, releases, the connections torn down by the broadcast (tried on connections of many clients in every mode) and the replies are compared with an independent model; non-trivial: distinct requester, registry and input", "histories of up to 5 requests")
}
