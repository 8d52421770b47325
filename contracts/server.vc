# src/server: application, connection, dispatch, handler, notification, reject

## server::application::extra
ghost
    use vstd::prelude::*;
    use crate::server::{IdInfo, ClientSelector, ClientIdentity, ScreenIdentity};
    /// An arbitrary application: nothing is known about it but the contracts of its methods.
    #[verifier::external_body] pub struct App { x: usize }
    #[verifier::external_body] pub struct AppMessageConnector { x: usize }
    #[verifier::external_body] pub struct AppStdoutConnector { x: usize }
    #[verifier::external_body] pub struct AppMessageHandler { x: usize }
    #[verifier::external_body] pub struct AppHandshakeHandler { x: usize }
    pub enum Sel { StrictlyBelow(Seq<u8>), AtOrBelow(Seq<u8>) }
    pub open spec fn sel_of(s: ClientSelector) -> Sel {
        match s { ClientSelector::StrictlyBelow(c) => Sel::StrictlyBelow(c.text()), ClientSelector::AtOrBelow(c) => Sel::AtOrBelow(c.text()) }
    }
    /// What the server has done with the outside world while working for one connection: messages and input
    /// queued for the client, calls into the application (with its answers), broadcasts.
    pub enum Ev {
        Sent(Seq<Seq<u8>>), Stdin(Seq<u8>),
        Discarded(Seq<u8>), Notified,
        AuthClient(Seq<u8>, Option<IdInfo>), AuthStdin(Seq<u8>, Option<Seq<u8>>), AuthStdout(Seq<u8>, Option<Seq<u8>>),
        HasClients(Sel, bool), FindClient(Seq<u8>, Option<IdInfo>), Register(IdInfo, Seq<u8>), Unregister(Sel),
        Broadcast(int),
    }
    pub open spec fn ev_auth_client(s: Seq<u8>, r: Option<IdInfo>) -> Ev { Ev::AuthClient(s, r) }
    pub open spec fn ev_auth_stdin(s: Seq<u8>, r: Option<Seq<u8>>) -> Ev { Ev::AuthStdin(s, r) }
    pub open spec fn ev_auth_stdout(s: Seq<u8>, r: Option<Seq<u8>>) -> Ev { Ev::AuthStdout(s, r) }
    pub open spec fn ev_has_clients(s: Sel, r: bool) -> Ev { Ev::HasClients(s, r) }
    pub open spec fn ev_register(i: IdInfo, secret: Seq<u8>) -> Ev { Ev::Register(i, secret) }
    pub open spec fn ev_broadcast(k: int) -> Ev { Ev::Broadcast(k) }
    pub open spec fn note_of(n: server::Notification) -> Ev {
        match n { server::Notification::IncomingBytesDiscarded(b) => Ev::Discarded(b@), _ => Ev::Notified }
    }
    pub open spec fn info_of(r: Option<ClientIdentity>) -> Option<IdInfo> { match r { Some(i) => Some(i.info()), None => None } }
    pub open spec fn screen_of(r: Option<ScreenIdentity>) -> Option<Seq<u8>> { match r { Some(i) => Some(i.text()), None => None } }
    impl server::MessageConnector for AppMessageConnector {
        uninterp spec fn id_info(&self) -> IdInfo;
        #[verifier::external_body] fn new(id: ClientIdentity) -> Self { unimplemented!() }
        #[verifier::external_body] fn identity(&self) -> &ClientIdentity { unimplemented!() }
    }
    impl server::StdoutConnector for AppStdoutConnector {
        uninterp spec fn screen(&self) -> Seq<u8>;
        uninterp spec fn received(&self) -> Seq<u8>;
        #[verifier::external_body] fn new(id: ScreenIdentity) -> Self { unimplemented!() }
        #[verifier::external_body] fn receive(&mut self, buf: &[u8]) { unimplemented!() }
    }

## server::application::MessageConnector
ghost
    /// the identity that the connector was made for
    spec fn id_info(&self) -> crate::server::IdInfo;

## server::application::MessageConnector::new
requires
  - id.wf()
ensures
  - r.id_info() == id.info()

## server::application::MessageConnector::identity
ensures
  - r.wf() && r.info() == self.id_info()

## server::application::StdoutConnector
ghost
    /// the screen that the connector was made for
    spec fn screen(&self) -> Seq<u8>;
    /// all the bytes received so far
    spec fn received(&self) -> Seq<u8>;

## server::application::StdoutConnector::new
ensures
  - r.screen() == id.text() && r.received() == Seq::<u8>::empty()

## server::application::StdoutConnector::receive
ensures
  - final(self).received() == old(self).received() + buf@
  - final(self).screen() == old(self).screen()

## server::application::App::notify
external the application, arbitrary
ensures
  - final(vp_log)@ == old(vp_log)@.push(crate::server::note_of(*n))

## server::application::App::register_client
external the application, arbitrary
ensures
  - final(vp_log)@ == old(vp_log)@.push(crate::server::ev_register(i.info(), vstd::utf8::encode_utf8(r.secret@)))

## server::application::App::unregister_clients
external the application, arbitrary
ensures
  - final(vp_log)@ == old(vp_log)@.push(crate::server::Ev::Unregister(crate::server::sel_of(s)))

## server::application::App::has_clients
external the application, arbitrary
ensures
  - final(vp_log)@ == old(vp_log)@.push(crate::server::ev_has_clients(crate::server::sel_of(s), r))

## server::application::App::authorize_client
external the application, arbitrary
ensures
  - final(vp_log)@ == old(vp_log)@.push(crate::server::ev_auth_client(secret.spec_bytes(), crate::server::info_of(r)))
  - r matches Some(i) ==> i.wf()

## server::application::App::find_client
external the application, arbitrary
ensures
  - final(vp_log)@ == old(vp_log)@.push(crate::server::Ev::FindClient(id.text(), crate::server::info_of(r)))
  - r matches Some(i) ==> i.wf()

## server::application::App::authorize_stdin
external the application, arbitrary
ensures
  - final(vp_log)@ == old(vp_log)@.push(crate::server::ev_auth_stdin(secret.spec_bytes(), crate::server::screen_of(r)))

## server::application::App::authorize_stdout
external the application, arbitrary
ensures
  - final(vp_log)@ == old(vp_log)@.push(crate::server::ev_auth_stdout(secret.spec_bytes(), crate::server::screen_of(r)))

# ---------------------------------------------------------------- dispatch
## server::dispatch::extra
ghost
    use vstd::prelude::*;
    use crate::server::{Ev, Connection};
    /// An arbitrary dispatch: nothing is known about it but the contracts of its methods.
    #[verifier::external_body] pub struct Disp { x: usize }
    /// (the code is generic in it, hence cannot make use of what it is)
    pub type DispConnectionID = u64;
    impl Clone for Disp { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    /// what the broadcast action recorded as number k may do to a connection
    pub uninterp spec fn brel(k: int, c0: Connection, c1: Connection) -> bool;

## server::dispatch::Disp::application
external the dispatch, arbitrary

## server::dispatch::Disp::enqueue_broadcast
external the dispatch, arbitrary
requires
  - forall|c: &mut server::Connection| #[trigger] call_requires(action, (c,))
ensures
  - exists|k: int| final(vp_log)@ == old(vp_log)@.push(#[trigger] crate::server::ev_broadcast(k))
        && forall|c0: server::Connection, c1: server::Connection| #[trigger] crate::server::brel(k, c0, c1) ==>
            exists|c: &mut server::Connection| #[trigger] call_ensures(action, (c,), ()) && *c == c0 && vstd::prelude::mut_ref_future(c) == c1

## server::dispatch::Disp::enqueue_message
external the dispatch, arbitrary
requires
  - old(conn).state is Handshake || old(conn).state is Msgio
ensures
  - crate::server::enqueued(*old(conn), msg.fields(), *final(conn))

## server::dispatch::Disp::enqueue_stdin
external the dispatch, arbitrary
requires
  - old(conn).state is Stdin
ensures
  - *final(conn) == crate::server::pushed(*old(conn), crate::server::Ev::Stdin(buf@))

# ---------------------------------------------------------------- handlers
## server::handler::Handler
ghost
    /// on which connections the handler may be used
    spec fn accepts(c: server::Connection) -> bool;
    /// what handling the message with these elements may do to a connection, and the answer
    spec fn handles(m: Seq<Seq<u8>>, c0: server::Connection, c1: server::Connection, r: Result<(), HandlerError>) -> bool;
    /// what handling a parse error (with the bytes that were parsed) may do to a connection
    spec fn handles_error(b: Seq<u8>, e: (PKind, int), c0: server::Connection, c1: server::Connection) -> bool;

## server::handler::Handler::handle
requires
  - msg.wf()
  - Self::accepts(*old(conn))
ensures
  - Self::handles(msg.elems(), *old(conn), *final(conn), r)

## server::handler::Handler::handle_error
requires
  - Self::accepts(*old(conn))
ensures
  - Self::handles_error(err.buffer@, (err.kind.code(), err.offset as int), *old(conn), *final(conn))

## server::handler::MessageHandler
ghost
    /// may r be the answer to whether the module is supported (and with which minor version)?
    spec fn supports(module: Seq<u8>, r: Option<u16>) -> bool;

## server::handler::MessageHandler::get_supported_module_version
requires
  - module.wf()
ensures
  - Self::supports(module.text(), r)

## server::handler::extra
ghost
    use vstd::prelude::*;
    use crate::server::{AppMessageHandler, AppHandshakeHandler};
    impl server::Handler for AppMessageHandler {
        open spec fn accepts(c: server::Connection) -> bool { c.state is Msgio }
        uninterp spec fn handles(m: Seq<Seq<u8>>, c0: server::Connection, c1: server::Connection, r: Result<(), HandlerError>) -> bool;
        uninterp spec fn handles_error(b: Seq<u8>, e: (PKind, int), c0: server::Connection, c1: server::Connection) -> bool;
        #[verifier::external_body] fn handle(&self, msg: &msg::Message, conn: &mut server::Connection) -> Result<(), HandlerError> { unimplemented!() }
        #[verifier::external_body] fn handle_error(&self, err: &msg::ParseError, conn: &mut server::Connection) { unimplemented!() }
    }
    pub proof fn lemma_parse_len(b: Seq<u8>)
        ensures sp_parse(b) matches Ok(n) ==> 0 < n <= b.len()
    { lemma_parse_sound(b); }
    pub proof fn lemma_msg_elems<'a>(m: &msg::Message<'a>)
        requires m.wf(),
        ensures m.elems().len() == 1 + m.args().len(), m.elems()[0] == m.ty(), forall|i: int| 0 <= i < m.args().len() ==> m.elems()[i + 1] == #[trigger] m.args()[i],
            m.elems().len() == 2 ==> m.elems()[1] == m.args()[0],
            m.elems().len() == 5 ==> m.elems()[1] == m.args()[0] && m.elems()[2] == m.args()[1] && m.elems()[3] == m.args()[2] && m.elems()[4] == m.args()[3],
    { crate::common::core::lemma_type_variant(&m.parsed_type); }
    impl Default for AppMessageHandler { #[verifier::external_body] fn default() -> Self { unimplemented!() } }
    impl server::MessageHandler for AppMessageHandler {
        uninterp spec fn supports(module: Seq<u8>, r: Option<u16>) -> bool;
        #[verifier::external_body] fn get_supported_module_version(&self, module: &ModuleIdentifier<'_>) -> Option<u16> { unimplemented!() }
    }
    impl server::Handler for AppHandshakeHandler {
        open spec fn accepts(c: server::Connection) -> bool { c.state is Handshake }
        uninterp spec fn handles(m: Seq<Seq<u8>>, c0: server::Connection, c1: server::Connection, r: Result<(), HandlerError>) -> bool;
        uninterp spec fn handles_error(b: Seq<u8>, e: (PKind, int), c0: server::Connection, c1: server::Connection) -> bool;
        #[verifier::external_body] fn handle(&self, msg: &msg::Message, conn: &mut server::Connection) -> Result<(), HandlerError> { unimplemented!() }
        #[verifier::external_body] fn handle_error(&self, err: &msg::ParseError, conn: &mut server::Connection) { unimplemented!() }
    }
    impl Default for AppHandshakeHandler { #[verifier::external_body] fn default() -> Self { unimplemented!() } }
    impl server::HandshakeHandler for AppHandshakeHandler {}

## server::reject::<RejectHandler as Handler>
ghost
    open spec fn accepts(c: server::Connection) -> bool { true }
    open spec fn handles(m: Seq<Seq<u8>>, c0: server::Connection, c1: server::Connection, r: Result<(), server::HandlerError>) -> bool {
        c1 == c0 && r == Err::<(), server::HandlerError>(server::HandlerError::UnknownMessageType)
    }
    open spec fn handles_error(b: Seq<u8>, e: (PKind, int), c0: server::Connection, c1: server::Connection) -> bool { c1 == c0 }

## server::reject::<RejectHandler as MessageHandler>
ghost
    open spec fn supports(module: Seq<u8>, r: Option<u16>) -> bool { r is None }

# ---------------------------------------------------------------- connection
## server::connection::ConnectionState::can_receive_messages
ensures
  - r == (self is Handshake || self is Msgio)
## server::connection::ConnectionState::can_receive_stdin
ensures
  - r == (self is Stdin)
## server::connection::ConnectionState::can_receive_stdin_for_screen
ensures
  - r == (self is Stdin && self->Stdin_0.id@ == id.id@)

## server::connection::ReceiveBuffer
ghost
    /// the bytes in the buffer
    spec fn bytes(&self) -> Seq<u8>;
## server::connection::ReceiveBuffer::contents
ensures
  - r@ == self.bytes()
## server::connection::ReceiveBuffer::discard
requires
  - len <= old(self).bytes().len()
ensures
  - final(self).bytes() == old(self).bytes().skip(len as int)

## server::connection::HandlerObj::handshake
ensures
  - r is HandshakeHandler
## server::connection::HandlerObj::message
ensures
  - r is MessageHandler

## server::connection::Connection::new
ensures
  - r.state is Handshake
  - r.log@.len() == 0
  - r.dispatch == dispatch && r.id == id
## server::connection::Connection::dispatch
ensures
  - r == self.dispatch
## server::connection::Connection::id
ensures
  - r == self.id
## server::connection::Connection::state
ensures
  - *r == self.state
## server::connection::Connection::set_state
ensures
  - *final(self) == with_state(*old(self), state)
## server::connection::Connection::message_connector
ensures
  - match old(self).state {
        ConnectionState::Msgio(k) => r matches Some(y) && *y == k && *final(self) == with_state(*old(self), ConnectionState::Msgio(*final(y))),
        _ => r is None && *final(self) == *old(self),
    }
## server::connection::Connection::stdout_connector
ensures
  - match old(self).state {
        ConnectionState::Stdout(k) => r matches Some(y) && *y == k && *final(self) == with_state(*old(self), ConnectionState::Stdout(*final(y))),
        _ => r is None && *final(self) == *old(self),
    }
## server::connection::Connection::enqueue_message
requires
  - old(self).state is Handshake || old(self).state is Msgio
ensures
  - enqueued(*old(self), msg.fields(), *final(self))
## server::connection::Connection::enqueue_stdin
requires
  - old(self).state is Stdin
ensures
  - *final(self) == pushed(*old(self), Ev::Stdin(buf@))

## server::connection::extra
ghost
    use vstd::prelude::*;
    use crate::server::{Ev, StdoutConnector, MessageConnector, HandlerError, AppMessageHandler, AppHandshakeHandler};
    pub open spec fn pushed(c: Connection, e: Ev) -> Connection { Connection { log: Ghost(c.log@.push(e)), ..c } }
    pub open spec fn with_state(c: Connection, s: ConnectionState) -> Connection { Connection { state: s, ..c } }
    /// queueing a message for the client: it is sent as it is, unless it is too long to be a message, in which
    /// case nothing is sent and the connection may be torn down
    pub open spec fn enqueued(c0: Connection, f: Seq<Seq<u8>>, c1: Connection) -> bool {
        if msg_text(f).len() <= 1024 { c1 == pushed(c0, Ev::Sent(f)) } else { c1 == c0 || c1 == with_state(c0, ConnectionState::Teardown) }
    }
    pub open spec fn can_reply(c: Connection) -> bool { c.state is Handshake || c.state is Msgio }
    /// C16: the reaction to the answer of the message handler
    pub open spec fn reacts(m: Seq<Seq<u8>>, c0: Connection, r: Result<(), HandlerError>, c1: Connection) -> bool {
        match r {
            Ok(_) => c1 == c0,
            Err(_) if !can_reply(c0) => c1 == c0,
            Err(HandlerError::InvalidMessage) => enqueued(c0, msg2(b_nope(), m[0]), c1),
            Err(HandlerError::UnknownMessageType) => if scoped_ok(m[0]) {
                exists|d: int, v: Option<u16>| #[trigger] scoped_is(m[0], d) && #[trigger] AppMessageHandler::supports(m[0].take(d), v) && enqueued(c0, msg2(b_have(), have_text(m[0].take(d), v)), c1)
            } else { enqueued(c0, msg2(b_nope(), m[0]), c1) },
        }
    }
    /// C15: during the handshake, everything that the handler does not accept is fatal
    pub open spec fn reacts_handshake(c0: Connection, r: Result<(), HandlerError>, c1: Connection) -> bool {
        match r {
            Ok(_) => c1 == c0,
            Err(_) => if can_reply(c0) { c1 == with_state(c0, ConnectionState::Teardown) } else { c1 == c0 },
        }
    }
    pub open spec fn recovers(b0: Seq<u8>, c0: Connection, c1: Connection, b1: Seq<u8>) -> bool {
        exists|k: int| #[trigger] resync(b0, k) && (focus_c14() ==> b1 == b0.skip(k)) && ({
            let e = Ev::Discarded(b0.take(k));
            ||| c1 == pushed(if c0.state is Handshake { with_state(c0, ConnectionState::Teardown) } else { c0 }, e)
            ||| !focus_c15() && c1 == pushed(c0, e)
        })
    }
    /// C14: one step of the connection: what happens to the first message, the unparseable bytes or the
    /// input at the start of the receive buffer
    pub open spec fn step(c0: Connection, b0: Seq<u8>, c1: Connection, b1: Seq<u8>) -> bool {
        match c0.state {
            ConnectionState::Handshake => match sp_parse(b0) {
                Ok(n) => (focus_c14() ==> b1 == b0.skip(n)) && exists|c: Connection, r: Result<(), HandlerError>| #[trigger] AppHandshakeHandler::handles(sp_elems(b0), c0, c, r) && (focus_c15() ==> reacts_handshake(c, r, c1)),
                Err(e) => e.0 != PKind::Eof && exists|c: Connection| #[trigger] AppHandshakeHandler::handles_error(b0, e, c0, c) && recovers(b0, c, c1, b1),
            },
            ConnectionState::Msgio(_) => match sp_parse(b0) {
                Ok(n) => (focus_c14() ==> b1 == b0.skip(n)) && exists|c: Connection, r: Result<(), HandlerError>| #[trigger] AppMessageHandler::handles(sp_elems(b0), c0, c, r) && (focus_c16() || focus_c17() ==> reacts(sp_elems(b0), c, r, c1)),
                Err(e) => e.0 != PKind::Eof && exists|c: Connection| #[trigger] AppMessageHandler::handles_error(b0, e, c0, c) && recovers(b0, c, c1, b1),
            },
            ConnectionState::Stdin(_) => focus_c14() ==> b0.len() > 0 && b1 == Seq::<u8>::empty() && c1 == pushed(with_state(c0, ConnectionState::Teardown), Ev::Discarded(b0)),
            ConnectionState::Stdout(k) => focus_c14() ==> b0.len() > 0 && b1 == Seq::<u8>::empty() && (c1.state matches ConnectionState::Stdout(k1) && k1.screen() == k.screen() && k1.received() == k.received() + b0
                && c1 == with_state(c0, c1.state)),
            ConnectionState::Teardown => false,
        }
    }
    /// nothing can be done until more input arrives
    pub open spec fn stuck(c: Connection, b: Seq<u8>) -> bool {
        b.len() == 0 || c.state is Teardown || (can_reply(c) && (sp_parse(b) matches Err(e) && e.0 == PKind::Eof))
    }
    pub proof fn lemma_step_runs(c0: Connection, b0: Seq<u8>, c1: Connection, b1: Seq<u8>)
        requires step(c0, b0, c1, b1), b1.len() < b0.len(),
        ensures forall|c: Connection, b: Seq<u8>| #[trigger] runs(c1, b1, c, b) ==> runs(c0, b0, c, b),
    { }
    /// C14: steps until nothing can be done any more
    pub open spec fn runs(c0: Connection, b0: Seq<u8>, c1: Connection, b1: Seq<u8>) -> bool
        decreases b0.len(),
    {
        if stuck(c0, b0) { c1 == c0 && b1 == b0 }
        else { exists|c: Connection, b: Seq<u8>| b.len() < b0.len() && #[trigger] step(c0, b0, c, b) && runs(c, b, c1, b1) }
    }

    /// the message that a step gives to the handler
    pub open spec fn fed(c0: Connection, b0: Seq<u8>) -> Seq<Seq<Seq<u8>>> { if can_reply(c0) && sp_parse(b0) is Ok { seq![sp_elems(b0)] } else { Seq::empty() } }
    /// `runs`, with the messages that are given to the handlers on the way
    pub open spec fn runs_with(c0: Connection, b0: Seq<u8>, ms: Seq<Seq<Seq<u8>>>, c1: Connection, b1: Seq<u8>) -> bool
        decreases b0.len(),
    {
        if stuck(c0, b0) { c1 == c0 && b1 == b0 && ms == Seq::<Seq<Seq<u8>>>::empty() }
        else { exists|c: Connection, b: Seq<u8>, ms2: Seq<Seq<Seq<u8>>>| b.len() < b0.len() && #[trigger] step(c0, b0, c, b) && runs_with(c, b, ms2, c1, b1) && ms == #[trigger] fed(c0, b0).add(ms2) }
    }
    pub proof fn lemma_runs_with(c0: Connection, b0: Seq<u8>, c1: Connection, b1: Seq<u8>)
        requires runs(c0, b0, c1, b1),
        ensures exists|ms: Seq<Seq<Seq<u8>>>| #[trigger] runs_with(c0, b0, ms, c1, b1),
        decreases b0.len(),
    {
        hide(sp_parse); hide(sp_elems); hide(msg_text); hide(scoped_ok); hide(scoped_is); hide(step);
        if stuck(c0, b0) { assert(runs_with(c0, b0, Seq::empty(), c1, b1)); }
        else {
            let (c, b) = choose|c: Connection, b: Seq<u8>| b.len() < b0.len() && #[trigger] step(c0, b0, c, b) && runs(c, b, c1, b1);
            lemma_runs_with(c, b, c1, b1);
            let ms2 = choose|ms: Seq<Seq<Seq<u8>>>| #[trigger] runs_with(c, b, ms, c1, b1);
            assert(runs_with(c0, b0, fed(c0, b0) + ms2, c1, b1));
        }
    }
    proof fn lemma_step_takes(c0: Connection, b0: Seq<u8>, c: Connection, b: Seq<u8>)
        requires focus_c14(), step(c0, b0, c, b), b.len() < b0.len(), !stuck(c0, b0),
        ensures can_reply(c) ==> can_reply(c0), exists|j: int| 0 <= j <= b0.len() && b == #[trigger] b0.skip(j),
            can_reply(c0) ==> frames(b0) == fed(c0, b0) + frames(b) && rest(b0) == rest(b),
    {
        hide(sp_parse); hide(sp_elems); hide(msg_text); hide(scoped_ok); hide(scoped_is); hide(module_ok);
        assert(b0.skip(b0.len() as int) =~= Seq::empty());
        lemma_parse_bounds(b0);
        if can_reply(c0) {
            if let Err(e) = sp_parse(b0) {
                assert(exists|k: int| #[trigger] resync(b0, k) && b == b0.skip(k));
                let k = choose|k: int| #[trigger] resync(b0, k) && b == b0.skip(k);
                lemma_resync(b0, k);
                assert(fed(c0, b0) + frames(b) =~= frames(b));
            }
        }
    }
    /// C14: the handlers are given exactly the messages in the input, each once and in order, as long as the
    /// connection remains in the handshake or message mode; what is left in the buffer is a suffix of the input,
    /// and it is the start of an incomplete message
    pub proof fn lemma_framing(c0: Connection, b0: Seq<u8>, ms: Seq<Seq<Seq<u8>>>, c1: Connection, b1: Seq<u8>)
        requires focus_c14(), runs_with(c0, b0, ms, c1, b1),
        ensures
            exists|j: int| 0 <= j <= b0.len() && b1 == #[trigger] b0.skip(j),
            can_reply(c1) ==> can_reply(c0) && ms == frames(b0) && b1 == rest(b0),
            can_reply(c0) ==> ms.len() <= frames(b0).len() && ms == frames(b0).take(ms.len() as int),
            !can_reply(c0) ==> ms.len() == 0,
        decreases b0.len(),
    {
        hide(sp_parse); hide(sp_elems); hide(msg_text); hide(scoped_ok); hide(scoped_is); hide(step);
        lemma_parse_bounds(b0);
        if stuck(c0, b0) {
            assert(b0.skip(0) =~= b0);
            assert(frames(b0).take(0) =~= Seq::<Seq<Seq<u8>>>::empty());
        } else {
            let (c, b, ms2) = choose|c: Connection, b: Seq<u8>, ms2: Seq<Seq<Seq<u8>>>| b.len() < b0.len() && #[trigger] step(c0, b0, c, b) && runs_with(c, b, ms2, c1, b1) && ms == #[trigger] fed(c0, b0).add(ms2);
            lemma_framing(c, b, ms2, c1, b1);
            lemma_step_takes(c0, b0, c, b);
            let j = choose|j: int| 0 <= j <= b0.len() && b == #[trigger] b0.skip(j);
            let i = choose|i: int| 0 <= i <= b.len() && b1 == #[trigger] b.skip(i);
            assert(b0.skip(i + j) =~= b1);
            if can_reply(c0) {
                if !can_reply(c) { assert(frames(b).take(0) =~= Seq::<Seq<Seq<u8>>>::empty()); assert(ms2 =~= Seq::<Seq<Seq<u8>>>::empty()); }
                assert(ms =~= frames(b0).take(ms.len() as int));
            } else { assert(ms =~= Seq::<Seq<Seq<u8>>>::empty()); }
        }
    }
    /// C14: the messages that the handlers see do not depend on how the input was split into reads
    pub proof fn lemma_two_reads(c0: Connection, b0: Seq<u8>, ms1: Seq<Seq<Seq<u8>>>, c1: Connection, b1: Seq<u8>, x: Seq<u8>, ms2: Seq<Seq<Seq<u8>>>, c2: Connection, b2: Seq<u8>)
        requires focus_c14(), runs_with(c0, b0, ms1, c1, b1), runs_with(c1, b1 + x, ms2, c2, b2), can_reply(c2),
        ensures ms1 + ms2 == frames(b0 + x), b2 == rest(b0 + x),
    {
        hide(sp_parse); hide(sp_elems); hide(step); hide(runs_with);
        lemma_framing(c0, b0, ms1, c1, b1);
        lemma_framing(c1, b1 + x, ms2, c2, b2);
        lemma_split_reads(b0, x);
    }
    /// C14: in stdout mode all bytes are delivered in order, in stdin mode they are dropped and the connection is
    /// torn down, and after teardown nothing is processed
    pub proof fn lemma_other_modes(c0: Connection, b0: Seq<u8>, c1: Connection, b1: Seq<u8>)
        requires focus_c14(), runs(c0, b0, c1, b1), b0.len() > 0,
        ensures
            c0.state matches ConnectionState::Stdout(k) ==> b1.len() == 0 && c1.log == c0.log && (c1.state matches ConnectionState::Stdout(k1) && k1.screen() == k.screen() && k1.received() == k.received() + b0),
            c0.state is Stdin ==> b1.len() == 0 && c1.state is Teardown && c1.log@ == c0.log@.push(Ev::Discarded(b0)),
            c0.state is Teardown ==> c1 == c0 && b1 == b0,
    {
        hide(sp_parse); hide(sp_elems); hide(msg_text); hide(scoped_ok); hide(scoped_is);
        if !stuck(c0, b0) {
            let (c, b) = choose|c: Connection, b: Seq<u8>| b.len() < b0.len() && #[trigger] step(c0, b0, c, b) && runs(c, b, c1, b1);
            if c0.state is Stdin || c0.state is Stdout { assert(b.len() == 0); assert(c1 == c && b1 == b); }
        }
    }

## server::connection::Connection::handle_incoming
ensures
  - focus_c14() ==> runs(*old(self), old(buf).bytes(), *final(self), final(buf).bytes())
loop 1
invariant
  - focus_c14() ==> forall|c: Connection, b: Seq<u8>| #[trigger] runs(*self, buf.bytes(), c, b) ==> runs(*old(self), old(buf).bytes(), c, b)
loop_decreases
  - buf.bytes().len()
insert loop_start 1
    let ghost vp_c = *self; let ghost vp_b = buf.bytes();
    proof { if stuck(vp_c, vp_b) { assert(runs(vp_c, vp_b, vp_c, vp_b)); } }
insert loop_end 1
    proof { assert(vp_b.skip(vp_b.len() as int) =~= Seq::empty()); lemma_step_runs(vp_c, vp_b, *self, buf.bytes()); }
insert after_loop 1
    proof { assert(runs(*self, buf.bytes(), *self, buf.bytes())); }

## server::connection::Connection::handle_incoming_msgio
requires
  - match handler { HandlerObj::HandshakeHandler(_) => old(self).state is Handshake, HandlerObj::MessageHandler(_) => old(self).state is Msgio }
  - old(buf).bytes().len() > 0
ensures
  - r ==> step(*old(self), old(buf).bytes(), *final(self), final(buf).bytes()) && final(buf).bytes().len() < old(buf).bytes().len()
  - !r ==> stuck(*old(self), old(buf).bytes()) && *final(self) == *old(self) && final(buf).bytes() == old(buf).bytes()
insert body_start
    hide(sp_parse); hide(sp_elems); hide(msg_text); hide(msg2); hide(b_nope); hide(b_have); hide(b_want); hide(scoped_ok); hide(crate::vident::module_ok); hide(scoped_is);
    proof { crate::server::lemma_parse_len(buf.bytes()); }
rewrite
    $b . contents ( ) . iter ( ) . skip ( 1 ) . position ( | & b | b == b'{' ) ==> crate::vserver::brace_pos($b.contents())
