# src/server/core: handshakes (C15), want (C16), client-make and client-end (C17)

## server::core::handshake::nolits
## server::core::msg::nolits

## server::core::handshake::extra
ghost
    use vstd::prelude::*;
    use vstd::utf8::valid_utf8;
    use crate::server::{AppHandshakeHandler, Ev, ev_auth_client, ev_auth_stdin, ev_auth_stdout, Connection, ConnectionState, AppMessageConnector, AppStdoutConnector, IdInfo, HandlerError, enqueued, pushed, with_state};
    pub proof fn lemma_strs() ensures forall|s: &str| valid_utf8(#[trigger] s.spec_bytes())
    { assert forall|s: &str| valid_utf8(#[trigger] s.spec_bytes()) by { crate::msg::core::lemma_str_valid(s); } }
    pub open spec fn is_hello(m: Seq<Seq<u8>>) -> bool { m.len() == 2 && valid_utf8(m[1]) }
    pub open spec fn server_hello(i: IdInfo) -> Seq<Seq<u8>> {
        msg5("posix1.server-hello".spec_bytes(), i.id, field_of(i.stdin), field_of(i.stdout), field_of(i.stderr))
    }
    pub open spec fn rejected(c0: Connection, c1: Connection, r: Result<(), HandlerError>) -> bool {
        c1 == c0 && r == Err::<(), HandlerError>(HandlerError::InvalidMessage)
    }
    pub open spec fn stdin_hello(m: Seq<Seq<u8>>, c0: Connection, c1: Connection, r: Result<(), HandlerError>) -> bool {
        if !is_hello(m) { rejected(c0, c1, r) }
        else { exists|a: Option<Seq<u8>>| ({
            let c = pushed(c0, #[trigger] ev_auth_stdin(m[1], a));
            match a {
                None => rejected(c, c1, r),
                Some(s) => r is Ok && (c1.state matches ConnectionState::Stdin(i) && i.text() == s && c1 == with_state(c, c1.state)),
            }
        }) }
    }
    pub open spec fn stdout_hello(m: Seq<Seq<u8>>, c0: Connection, c1: Connection, r: Result<(), HandlerError>) -> bool {
        if !is_hello(m) { rejected(c0, c1, r) }
        else { exists|a: Option<Seq<u8>>| ({
            let c = pushed(c0, #[trigger] ev_auth_stdout(m[1], a));
            match a {
                None => rejected(c, c1, r),
                Some(s) => r is Ok && (c1.state matches ConnectionState::Stdout(k) && k.screen() == s && k.received() == Seq::<u8>::empty() && c1 == with_state(c, c1.state)),
            }
        }) }
    }
    pub open spec fn client_hello(m: Seq<Seq<u8>>, c0: Connection, c1: Connection, r: Result<(), HandlerError>) -> bool {
        if !is_hello(m) { rejected(c0, c1, r) }
        else { exists|a: Option<IdInfo>| ({
            let c = pushed(c0, #[trigger] ev_auth_client(m[1], a));
            match a {
                None => rejected(c, c1, r),
                Some(i) => r is Ok && exists|k: AppMessageConnector| #[trigger] k.id_info() == i && enqueued(with_state(c, ConnectionState::Msgio(k)), server_hello(i), c1),
            }
        }) }
    }
    /// nothing was sent, registered or broadcast
    pub open spec fn silent(l0: Seq<Ev>, l1: Seq<Ev>) -> bool {
        l0.len() <= l1.len() && (forall|i: int| 0 <= i < l0.len() ==> #[trigger] l1[i] == l0[i])
            && forall|i: int| l0.len() <= i < l1.len() ==> (#[trigger] l1[i]) is Discarded || l1[i] is AuthClient || l1[i] is AuthStdin || l1[i] is AuthStdout
    }
    /// C15: what a step that starts in the handshake state may lead to, if the handshake handler is the one of
    /// this module in front of one that rejects everything
    pub open spec fn gate(c0: Connection, b0: Seq<u8>, c1: Connection) -> bool {
        let m = sp_elems(b0);
        match c1.state {
            ConnectionState::Handshake => false,
            ConnectionState::Stdin(i) => sp_parse(b0) is Ok && m[0] == "posix1.stdin-hello".spec_bytes() && is_hello(m)
                && c1.log@ == c0.log@.push(ev_auth_stdin(m[1], Some(i.text()))),
            ConnectionState::Stdout(k) => sp_parse(b0) is Ok && m[0] == "posix1.stdout-hello".spec_bytes() && is_hello(m)
                && c1.log@ == c0.log@.push(ev_auth_stdout(m[1], Some(k.screen()))) && k.received().len() == 0,
            ConnectionState::Msgio(k) => sp_parse(b0) is Ok && m[0] == "posix1.client-hello".spec_bytes() && is_hello(m) && {
                let l = c0.log@.push(ev_auth_client(m[1], Some(k.id_info())));
                c1.log@ == l.push(Ev::Sent(server_hello(k.id_info()))) || (c1.log@ == l && msg_text(server_hello(k.id_info())).len() > 1024)
            },
            ConnectionState::Teardown => silent(c0.log@, c1.log@),
        }
    }
    pub proof fn lemma_gate<N: server::HandshakeHandler>(c0: Connection, b0: Seq<u8>, c1: Connection, b1: Seq<u8>)
        requires
            focus_c15(), c0.state is Handshake, crate::server::step(c0, b0, c1, b1),
            forall|m: Seq<Seq<u8>>, x: Connection, y: Connection, r: Result<(), HandlerError>| #[trigger] <AppHandshakeHandler as server::Handler>::handles(m, x, y, r) ==> <HandshakeHandler<N> as server::Handler>::handles(m, x, y, r),
            forall|m: Seq<Seq<u8>>, x: Connection, y: Connection, r: Result<(), HandlerError>| #[trigger] N::handles(m, x, y, r) ==> <server::RejectHandler as server::Handler>::handles(m, x, y, r),
            forall|b: Seq<u8>, e: (PKind, int), x: Connection, y: Connection| #[trigger] <AppHandshakeHandler as server::Handler>::handles_error(b, e, x, y) ==> y == x,
        ensures gate(c0, b0, c1),
    {
        hide(b_want); hide(b_have); hide(b_nope); hide(msg2); hide(msg5); hide(msg_text); hide(scoped_ok); hide(module_ok); hide(client_id_ok); hide(sp_parse); hide(sp_elems); hide(server_hello);
        match sp_parse(b0) {
            Ok(n) => {
                let m = sp_elems(b0);
                let (c, r) = choose|c: Connection, r: Result<(), HandlerError>| #[trigger] <AppHandshakeHandler as server::Handler>::handles(m, c0, c, r) && crate::server::reacts_handshake(c, r, c1);
                assert(<HandshakeHandler<N> as server::Handler>::handles(m, c0, c, r));
            }
            Err(e) => { let c = choose|c: Connection| #[trigger] <AppHandshakeHandler as server::Handler>::handles_error(b0, e, c0, c) && crate::server::recovers(b0, c, c1, b1); }
        }
    }

## server::core::handshake::<HandshakeHandler as Handler>
ghost
    open spec fn accepts(c: server::Connection) -> bool { c.state is Handshake && Next::accepts(c) }
    open spec fn handles(m: Seq<Seq<u8>>, c0: server::Connection, c1: server::Connection, r: Result<(), server::HandlerError>) -> bool {
        if !focus_c15() { true }
        else if m[0] == "posix1.stdin-hello".spec_bytes() { stdin_hello(m, c0, c1, r) }
        else if m[0] == "posix1.stdout-hello".spec_bytes() { stdout_hello(m, c0, c1, r) }
        else if m[0] == "posix1.client-hello".spec_bytes() { client_hello(m, c0, c1, r) }
        else { Next::handles(m, c0, c1, r) }
    }
    open spec fn handles_error(b: Seq<u8>, e: (PKind, int), c0: server::Connection, c1: server::Connection) -> bool { Next::handles_error(b, e, c0, c1) }

## server::core::handshake::<HandshakeHandler as Handler>::handle
insert body_start
    hide(b_want); hide(b_have); hide(b_nope); hide(msg2); hide(msg5); hide(msg_text); hide(scoped_ok); hide(module_ok); hide(client_id_ok);
    proof { crate::server::lemma_msg_elems(msg); crate::vlits::lit_want(); crate::server::core::lemma_strs(); }

## server::core::msg::extra
ghost
    pub proof fn lemma_modules() ensures forall|m: ModuleIdentifier<'_>| m.wf() ==> module_ok(#[trigger] m.text())
    { assert forall|m: ModuleIdentifier<'_>| m.wf() implies module_ok(#[trigger] m.text()) by { assert(module_is(m.text(), m.name.text().len() as int, m.major_version as int)); } }
    use vstd::prelude::*;
    use vstd::utf8::valid_utf8;
    use crate::server::{AppMessageHandler, Ev, ev_has_clients, ev_register, ev_broadcast, Sel, Connection, IdInfo, HandlerError, enqueued, pushed, with_state, brel};
    use crate::server::core::rejected;
    /// C16: exactly one `have` about the module
    pub open spec fn core_supports<Next: server::MessageHandler>(module: Seq<u8>, r: Option<u16>) -> bool {
        if module == "core1".spec_bytes() || module == "posix1".spec_bytes() { r == Some(0u16) } else { Next::supports(module, r) }
    }
    pub open spec fn want<Next: server::MessageHandler>(m: Seq<Seq<u8>>, c0: Connection, c1: Connection, r: Result<(), HandlerError>) -> bool {
        if !(m.len() == 2 && module_ok(m[1])) { rejected(c0, c1, r) }
        else { r is Ok && exists|v: Option<u16>| #[trigger] core_supports::<Next>(m[1], v) && enqueued(c0, msg2(b_have(), have_text(m[1], v)), c1) }
    }
    pub open spec fn own_id(c: Connection) -> Seq<u8> { c.state->Msgio_0.id_info().id }
    pub open spec fn strictly_below(a: Seq<u8>, b: Seq<u8>) -> bool { crate::vcid::is_pre(a, b) && b != a }
    pub open spec fn make_ok(own: Seq<u8>, m: Seq<Seq<u8>>) -> bool {
        m.len() == 5 && client_id_ok(m[1]) && valid_utf8(m[2]) && valid_utf8(m[3]) && valid_utf8(m[4]) && strictly_below(own, m[1])
    }
    pub open spec fn make_info(m: Seq<Seq<u8>>) -> IdInfo { IdInfo { id: m[1], stdin: opt_field(m[2]), stdout: opt_field(m[3]), stderr: opt_field(m[4]) } }
    /// C17: registered if and only if below the requester and not in use
    pub open spec fn client_make(m: Seq<Seq<u8>>, c0: Connection, c1: Connection, r: Result<(), HandlerError>) -> bool {
        if !make_ok(own_id(c0), m) { rejected(c0, c1, r) }
        else { exists|used: bool| ({
            let c = pushed(c0, #[trigger] ev_has_clients(Sel::AtOrBelow(m[1]), used));
            if used { rejected(c, c1, r) }
            else { r is Ok && exists|secret: Seq<u8>| enqueued(pushed(c, #[trigger] ev_register(make_info(m), secret)), msg2("core1.client-new".spec_bytes(), secret), c1) }
        }) }
    }
    /// C17: exactly the connections in message mode of clients at or below the ID are torn down
    pub open spec fn tears_down(id: Seq<u8>, c0: Connection, c1: Connection) -> bool {
        match c0.state {
            ConnectionState::Msgio(k) if crate::vcid::is_pre(id, k.id_info().id) => c1 == with_state(c0, ConnectionState::Teardown),
            _ => c1 == c0,
        }
    }
    pub open spec fn is_tear_down(id: Seq<u8>, k: int) -> bool { forall|a: Connection, b: Connection| #[trigger] brel(k, a, b) ==> tears_down(id, a, b) }
    pub open spec fn client_end(m: Seq<Seq<u8>>, c0: Connection, c1: Connection, r: Result<(), HandlerError>) -> bool {
        if !(m.len() == 2 && client_id_ok(m[1]) && strictly_below(own_id(c0), m[1])) { rejected(c0, c1, r) }
        else { r is Ok && exists|k: int| is_tear_down(m[1], k) && {
            ||| c1 == pushed(pushed(c0, Ev::Unregister(Sel::AtOrBelow(m[1]))), #[trigger] ev_broadcast(k))
            ||| c1 == pushed(pushed(c0, ev_broadcast(k)), Ev::Unregister(Sel::AtOrBelow(m[1])))
        } }
    }
    pub open spec fn nope(m: Seq<Seq<u8>>) -> Seq<Seq<u8>> { msg2(b_nope(), m[0]) }
    /// the message types that the baseline handler knows
    pub open spec fn is_make(m: Seq<Seq<u8>>) -> bool { m[0] != b_want() && m[0] == "core1.client-make".spec_bytes() }
    pub open spec fn is_end(m: Seq<Seq<u8>>) -> bool { m[0] != b_want() && m[0] != "core1.client-make".spec_bytes() && m[0] == "core1.client-end".spec_bytes() }
    pub open spec fn is_any_hello(m: Seq<Seq<u8>>) -> bool { m[0] == "posix1.stdin-hello".spec_bytes() || m[0] == "posix1.stdout-hello".spec_bytes() || m[0] == "posix1.client-hello".spec_bytes() }
    pub open spec fn knows(m: Seq<Seq<u8>>) -> bool {
        m[0] == b_want() || m[0] == "core1.client-make".spec_bytes() || m[0] == "core1.client-end".spec_bytes() || is_any_hello(m)
    }
    /// the application uses the baseline message handler in front of some other handler
    pub open spec fn uses<N: MessageHandlerExt>() -> bool {
        &&& forall|m: Seq<Seq<u8>>, x: Connection, y: Connection, r: Result<(), HandlerError>| #[trigger] <AppMessageHandler as server::Handler>::handles(m, x, y, r) ==> <MessageHandler<N> as server::Handler>::handles(m, x, y, r)
        &&& forall|m: Seq<u8>, v: Option<u16>| #[trigger] <AppMessageHandler as server::MessageHandler>::supports(m, v) ==> <MessageHandler<N> as server::MessageHandler>::supports(m, v)
    }
    /// exactly one `have` about the module of the message type
    pub open spec fn have_about<N: server::MessageHandler>(ty: Seq<u8>, c0: Connection, c1: Connection) -> bool {
        exists|d: int, v: Option<u16>| #[trigger] scoped_is(ty, d) && #[trigger] core_supports::<N>(ty.take(d), v) && enqueued(c0, msg2(b_have(), have_text(ty.take(d), v)), c1)
    }
    /// C16: the reply to a message
    pub open spec fn replies<N: server::MessageHandler>(m: Seq<Seq<u8>>, c0: Connection, c1: Connection) -> bool {
        if m[0] == b_want() {
            if m.len() == 2 && module_ok(m[1]) { exists|v: Option<u16>| #[trigger] core_supports::<N>(m[1], v) && enqueued(c0, msg2(b_have(), have_text(m[1], v)), c1) }
            else { enqueued(c0, nope(m), c1) }
        } else if knows(m) { is_any_hello(m) && !is_make(m) && !is_end(m) ==> enqueued(c0, nope(m), c1) }
        else {
            exists|c: Connection, r: Result<(), HandlerError>| #[trigger] N::handles(m, c0, c, r) && match r {
                Ok(_) => c1 == c,
                Err(HandlerError::InvalidMessage) => c.state is Msgio ==> enqueued(c, nope(m), c1),
                Err(HandlerError::UnknownMessageType) => c.state is Msgio ==> if scoped_ok(m[0]) { have_about::<N>(m[0], c, c1) } else { enqueued(c, nope(m), c1) },
            }
        }
    }
    pub proof fn lemma_replies<N: MessageHandlerExt>(c0: Connection, b0: Seq<u8>, c1: Connection, b1: Seq<u8>)
        requires focus_c16(), c0.state is Msgio, crate::server::step(c0, b0, c1, b1), uses::<N>(), sp_parse(b0) is Ok,
        ensures replies::<N>(sp_elems(b0), c0, c1),
    {
        hide(b_want); hide(b_have); hide(b_nope); hide(msg2); hide(msg5); hide(msg_text); hide(scoped_ok); hide(scoped_is); hide(module_ok); hide(client_id_ok); hide(sp_parse); hide(sp_elems);
        let m = sp_elems(b0);
        let (c, r) = choose|c: Connection, r: Result<(), HandlerError>| #[trigger] <AppMessageHandler as server::Handler>::handles(m, c0, c, r) && crate::server::reacts(m, c, r, c1);
        assert(<MessageHandler<N> as server::Handler>::handles(m, c0, c, r));
        if r == Err::<(), HandlerError>(HandlerError::UnknownMessageType) && scoped_ok(m[0]) && crate::server::can_reply(c) {
            let (d, v) = choose|d: int, v: Option<u16>| #[trigger] scoped_is(m[0], d) && #[trigger] <AppMessageHandler as server::MessageHandler>::supports(m[0].take(d), v) && enqueued(c, msg2(b_have(), have_text(m[0].take(d), v)), c1);
            assert(<MessageHandler<N> as server::MessageHandler>::supports(m[0].take(d), v));
            assert(core_supports::<N>(m[0].take(d), v));
        }
    }
    /// C16: the baseline handler on its own
    pub proof fn lemma_replies_alone(m: Seq<Seq<u8>>, c0: Connection, c1: Connection)
        requires c0.state is Msgio, replies::<server::RejectHandler>(m, c0, c1), !knows(m),
        ensures if scoped_ok(m[0]) { have_about::<server::RejectHandler>(m[0], c0, c1) } else { enqueued(c0, nope(m), c1) },
    { hide(scoped_ok); hide(scoped_is); hide(msg2); hide(msg_text); hide(b_have); hide(b_nope); hide(have_about); }
    /// C17: what a client-make message leads to
    pub open spec fn makes(m: Seq<Seq<u8>>, c0: Connection, c1: Connection) -> bool {
        if !make_ok(own_id(c0), m) { enqueued(c0, nope(m), c1) }
        else { exists|used: bool| ({
            let c = pushed(c0, #[trigger] ev_has_clients(Sel::AtOrBelow(m[1]), used));
            if used { enqueued(c, nope(m), c1) }
            else { exists|secret: Seq<u8>| enqueued(pushed(c, #[trigger] ev_register(make_info(m), secret)), msg2("core1.client-new".spec_bytes(), secret), c1) }
        }) }
    }
    /// C17: what a client-end message leads to
    pub open spec fn ends(m: Seq<Seq<u8>>, c0: Connection, c1: Connection) -> bool {
        if !(m.len() == 2 && client_id_ok(m[1]) && strictly_below(own_id(c0), m[1])) { enqueued(c0, nope(m), c1) }
        else { exists|k: int| is_tear_down(m[1], k) && {
            ||| c1 == pushed(pushed(c0, Ev::Unregister(Sel::AtOrBelow(m[1]))), #[trigger] ev_broadcast(k))
            ||| c1 == pushed(pushed(c0, ev_broadcast(k)), Ev::Unregister(Sel::AtOrBelow(m[1])))
        } }
    }
    pub proof fn lemma_authority<N: MessageHandlerExt>(c0: Connection, b0: Seq<u8>, c1: Connection, b1: Seq<u8>)
        requires focus_c17(), c0.state is Msgio, crate::server::step(c0, b0, c1, b1), uses::<N>(), sp_parse(b0) is Ok,
        ensures ({ let m = sp_elems(b0); (is_make(m) ==> makes(m, c0, c1)) && (is_end(m) ==> ends(m, c0, c1)) }),
    {
        hide(b_want); hide(b_have); hide(b_nope); hide(msg2); hide(msg5); hide(msg_text); hide(scoped_ok); hide(scoped_is); hide(module_ok); hide(client_id_ok); hide(sp_parse); hide(sp_elems);
        hide(is_tear_down); hide(make_info);
        let m = sp_elems(b0);
        let (c, r) = choose|c: Connection, r: Result<(), HandlerError>| #[trigger] <AppMessageHandler as server::Handler>::handles(m, c0, c, r) && crate::server::reacts(m, c, r, c1);
        assert(<MessageHandler<N> as server::Handler>::handles(m, c0, c, r));
    }

## server::core::msg::<MessageHandler as MessageHandler>
ghost
    open spec fn supports(module: Seq<u8>, r: Option<u16>) -> bool { core_supports::<Next>(module, r) }

## server::core::msg::<MessageHandler as Handler>
ghost
    open spec fn accepts(c: server::Connection) -> bool { c.state is Msgio && Next::accepts(c) }
    open spec fn handles(m: Seq<Seq<u8>>, c0: server::Connection, c1: server::Connection, r: Result<(), server::HandlerError>) -> bool {
        if m[0] == b_want() { focus_c16() ==> want::<Next>(m, c0, c1, r) }
        else if m[0] == "core1.client-make".spec_bytes() { focus_c17() ==> client_make(m, c0, c1, r) }
        else if m[0] == "core1.client-end".spec_bytes() { focus_c17() ==> client_end(m, c0, c1, r) }
        else if m[0] == "posix1.stdin-hello".spec_bytes() || m[0] == "posix1.stdout-hello".spec_bytes() || m[0] == "posix1.client-hello".spec_bytes() { focus_c16() ==> rejected(c0, c1, r) }
        else { focus_c16() ==> Next::handles(m, c0, c1, r) }
    }
    open spec fn handles_error(b: Seq<u8>, e: (PKind, int), c0: server::Connection, c1: server::Connection) -> bool { Next::handles_error(b, e, c0, c1) }

## server::core::msg::<MessageHandler as Handler>::handle
insert body_start
    hide(b_want); hide(b_have); hide(b_nope); hide(msg2); hide(msg5); hide(msg_text); hide(scoped_ok); hide(module_ok); hide(client_id_ok);
    proof { crate::server::lemma_msg_elems(msg); crate::vlits::lit_want(); crate::server::core::lemma_strs(); crate::server::core::lemma_modules(); }
rewrite
    move | $c : & mut crate :: server :: Connection | { $(b) } ==> move |$c: &mut crate::server::Connection| ensures crate::server::core::tears_down(owned_client_id.text(), *old($c), *final($c)) { $b }
