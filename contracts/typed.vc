# src/common/core/msg/traits.rs, src/msg/*.rs: typed messages

## common::core::msg::traits::EncodeMessage
ghost
    /// the byte strings of the message: its type, then its fields
    spec fn fields(&self) -> Seq<Seq<u8>>;

## common::core::msg::traits::EncodeMessage::encode
requires
  - msg_text(self.fields()).len() <= usize::MAX
ensures
  - formats(old(buf)@, final(buf)@, msg_text(self.fields()), r)

## common::core::msg::traits::DecodeMessage
ghost
    /// is r the right answer for the message m?
    spec fn decodes_msg(m: &msg::Message<'a>, r: Option<Self>) -> bool;

## common::core::msg::traits::DecodeMessage::decode_message
requires
  - msg.wf()
ensures
  - Self::decodes_msg(msg, r)

## common::core::msg::traits::extra
ghost
    use vstd::prelude::*;
    use crate::vmsg::*;
    /// C09/C11: what formatting a message with text t into a buffer does
    pub open spec fn formats(b0: Seq<u8>, b1: Seq<u8>, t: Seq<u8>, r: Result<usize, msg::BufferTooSmallError>) -> bool {
        &&& b1.len() == b0.len()
        &&& t.len() <= min_len(b0) ==> r == Ok::<usize, msg::BufferTooSmallError>(t.len() as usize) && b1 =~= t + b0.skip(t.len() as int)
        &&& t.len() > min_len(b0) ==> r == Err::<usize, msg::BufferTooSmallError>(msg::BufferTooSmallError((t.len() - min_len(b0)) as usize))
        &&& b1.skip(min_len(b0)) =~= b0.skip(min_len(b0))
    }
    /// C10: what has been formatted successfully parses back to the same elements, whatever bytes follow
    pub proof fn lemma_format_parse(b0: Seq<u8>, b1: Seq<u8>, a: Seq<Seq<u8>>, r: Result<usize, msg::BufferTooSmallError>, b: Seq<u8>)
        requires
            formats(b0, b1, msg_text(a), r), r is Ok, 1 <= a.len() <= usize::MAX, crate::vident::msgtype_ok(a[0]),
            r->Ok_0 <= b.len() <= usize::MAX, b.take(r->Ok_0 as int) == b1.take(r->Ok_0 as int),
        ensures
            r->Ok_0 == msg_text(a).len(), r->Ok_0 <= 1024,
            sp_parse(b) == Ok::<int, (PKind, int)>(r->Ok_0 as int), sp_elems(b) == a,
    {
        assert(b1.take(r->Ok_0 as int) =~= msg_text(a));
        assert forall|i: int| 0 <= i < msg_text(a).len() implies b[0 + i] == #[trigger] msg_text(a)[i] by { assert(b.take(r->Ok_0 as int)[i] == b[i]); }
        assert(b.subrange(0, msg_text(a).len() as int) =~= msg_text(a));
        lemma_parse_complete(b, a);
    }

# ---------------------------------------------------------------- want, have, nope
## msg::extra
ghost
    use vstd::prelude::*;
    #[allow(unused_imports)] use crate::common::core::msg::{EncodeMessage as _, DecodeMessage as _};
    use crate::vident::*;
    /// C11: decoding the encoding of a value gives the value back
    #[verifier::spinoff_prover] pub proof fn lemma_roundtrip_want<'a>(v: Want<'a>, m: msg::Message<'a>, r: Option<Want<'a>>)
        requires v.0.wf(), m.wf(), m.elems() == v.fields(), <Want<'a> as msg::DecodeMessage<'a>>::decodes_msg(&m, r),
        ensures r is Some, r->0.fields() == v.fields(),
    {
        let f = v.fields();
        assert(m.elems()[0] == m.ty());
        assert(m.args() =~= f.skip(1));
        let t = v.0; assert(module_is(t.text(), t.name.text().len() as int, t.major_version as int));
        if r is Some { assert(r->0.fields() =~= f); }
    }
    /// C11: decoding the encoding of a value gives the value back
    #[verifier::spinoff_prover] pub proof fn lemma_roundtrip_have<'a>(v: Have<'a>, m: msg::Message<'a>, r: Option<Have<'a>>)
        requires (match v { Have::ThisModule(x) => x.wf(), Have::NotThisModule(x) => x.wf() }), m.wf(), m.elems() == v.fields(), <Have<'a> as msg::DecodeMessage<'a>>::decodes_msg(&m, r),
        ensures r is Some, r->0.fields() == v.fields(), (r->0 is ThisModule) == (v is ThisModule),
    {
        let f = v.fields();
        assert(m.elems()[0] == m.ty());
        assert(m.args() =~= f.skip(1));
        match v {
            Have::ThisModule(x) => { crate::common::core::lemma_modver_text(&x); }
            Have::NotThisModule(x) => {
                assert(module_is(x.text(), x.name.text().len() as int, x.major_version as int));
                lemma_module_ok_chars(x.text());
                if modver_ok(x.text()) { let (d, w) = choose|d: int, w: int| modver_is(x.text(), d, w); assert(x.text()[d] == 46); }
            }
        }
        if let Some(Have::ThisModule(y)) = r { crate::common::core::lemma_modver_text(&y); }
        if r is Some { assert(r->0.fields() =~= f); }
    }
    /// C11: decoding the encoding of a value gives the value back
    #[verifier::spinoff_prover] pub proof fn lemma_roundtrip_nope<'a>(v: Nope<'a>, m: msg::Message<'a>, r: Option<Nope<'a>>)
        requires v.0.wf(), m.wf(), m.elems() == v.fields(), <Nope<'a> as msg::DecodeMessage<'a>>::decodes_msg(&m, r),
        ensures r is Some, r->0.fields() == v.fields(),
    {
        let f = v.fields();
        assert(m.elems()[0] == m.ty());
        assert(m.args() =~= f.skip(1));
        crate::common::core::lemma_type_variant(&v.0);
        if r is Some { assert(r->0.fields() =~= f); }
    }

## msg::<Want as DecodeMessage>
ghost
    open spec fn decodes_msg(m: &msg::Message<'a>, r: Option<Self>) -> bool {
        match r {
            Some(v) => m.ty() == b_want() && m.args().len() == 1 && ModuleIdentifier::parses(m.args()[0], Some(v.0)),
            None => m.ty() != b_want() || m.args().len() != 1 || !module_ok(m.args()[0]),
        }
    }

## msg::<Want as EncodeMessage>
ghost
    open spec fn fields(&self) -> Seq<Seq<u8>> { msg2(b_want(), self.0.text()) }

## msg::<Have as DecodeMessage>
ghost
    open spec fn decodes_msg(m: &msg::Message<'a>, r: Option<Self>) -> bool {
        match r {
            Some(Have::ThisModule(v)) => m.ty() == b_have() && m.args().len() == 1 && ModuleVersion::parses(m.args()[0], Some(v)),
            Some(Have::NotThisModule(v)) => m.ty() == b_have() && m.args().len() == 1 && ModuleIdentifier::parses(m.args()[0], Some(v)) && !modver_ok(m.args()[0]),
            None => m.ty() != b_have() || m.args().len() != 1 || (!modver_ok(m.args()[0]) && !module_ok(m.args()[0])),
        }
    }

## msg::<Have as EncodeMessage>
ghost
    open spec fn fields(&self) -> Seq<Seq<u8>> {
        msg2(b_have(), match *self { Have::ThisModule(v) => v.text(), Have::NotThisModule(m) => m.text() })
    }

## msg::<Nope as DecodeMessage>
ghost
    open spec fn decodes_msg(m: &msg::Message<'a>, r: Option<Self>) -> bool {
        match r {
            Some(v) => m.ty() == b_nope() && m.args().len() == 1 && MessageType::parses(m.args()[0], Some(v.0)),
            None => m.ty() != b_nope() || m.args().len() != 1 || !msgtype_ok(m.args()[0]),
        }
    }

## msg::<Nope as EncodeMessage>
ghost
    open spec fn fields(&self) -> Seq<Seq<u8>> { msg2(b_nope(), self.0.text()) }

## msg::<{T} as DecodeMessage>::decode_message for T=Want,Have,Nope
insert body_start
    proof { crate::common::core::lemma_type_variant(&msg.parsed_type); }

## msg::<{T} as EncodeMessage>::encode for T=Want,Have,Nope
insert body_start
    proof { lemma_msg2(self.fields()); }

# ---------------------------------------------------------------- core
## msg::core::<ClientMake as DecodeMessage>
ghost
    open spec fn decodes_msg(m: &msg::Message<'a>, r: Option<Self>) -> bool {
        match r {
            Some(v) => m.ty() == "core1.client-make".spec_bytes() && m.args().len() == 4 && four(m.args(), v.client_id, v.stdin_screen_id, v.stdout_screen_id, v.stderr_screen_id),
            None => m.ty() != "core1.client-make".spec_bytes() || m.args().len() != 4 || not_four(m.args()),
        }
    }

## msg::core::<ClientMake as EncodeMessage>
ghost
    open spec fn fields(&self) -> Seq<Seq<u8>> {
        msg5("core1.client-make".spec_bytes(), self.client_id.text(), opt_text(self.stdin_screen_id), opt_text(self.stdout_screen_id), opt_text(self.stderr_screen_id))
    }

## msg::core::extra
ghost
    use vstd::prelude::*;
    #[allow(unused_imports)] use crate::common::core::msg::{EncodeMessage as _, DecodeMessage as _};
    use vstd::utf8::valid_utf8;
    use crate::vident::*;
    pub open spec fn opt_text(s: Option<&str>) -> Seq<u8> { match s { Some(x) => x.spec_bytes(), None => Seq::empty() } }
    /// an empty text decodes as an absent one
    pub open spec fn opt_is(a: Seq<u8>, s: Option<&str>) -> bool { (s is None <==> a.len() == 0) && opt_text(s) == a }
    pub open spec fn four(a: Seq<Seq<u8>>, c: ClientID<'_>, x: Option<&str>, y: Option<&str>, z: Option<&str>) -> bool {
        ClientID::parses(a[0], Some(c)) && opt_is(a[1], x) && opt_is(a[2], y) && opt_is(a[3], z)
    }
    pub open spec fn not_four(a: Seq<Seq<u8>>) -> bool {
        !client_id_ok(a[0]) || !valid_utf8(a[1]) || !valid_utf8(a[2]) || !valid_utf8(a[3])
    }
    /// C11: decoding the encoding of a value gives the value back
    #[verifier::spinoff_prover] pub proof fn lemma_roundtrip_clientmake<'a>(v: ClientMake<'a>, m: msg::Message<'a>, r: Option<ClientMake<'a>>)
        requires v.client_id.wf(), m.wf(), m.elems() == v.fields(), <ClientMake<'a> as msg::DecodeMessage<'a>>::decodes_msg(&m, r),
        ensures r is Some, r->0.fields() == v.fields(),
    {
        let f = v.fields();
        assert(m.elems()[0] == m.ty());
        assert(m.args() =~= f.skip(1));
        lemma_opt_valid(v.stdin_screen_id); lemma_opt_valid(v.stdout_screen_id); lemma_opt_valid(v.stderr_screen_id);
        if r is Some { assert(r->0.fields() =~= f); }
    }
    /// C11: decoding the encoding of a value gives the value back
    #[verifier::spinoff_prover] pub proof fn lemma_roundtrip_clientnew<'a>(v: ClientNew<'a>, m: msg::Message<'a>, r: Option<ClientNew<'a>>)
        requires m.wf(), m.elems() == v.fields(), <ClientNew<'a> as msg::DecodeMessage<'a>>::decodes_msg(&m, r),
        ensures r is Some, r->0.fields() == v.fields(),
    {
        let f = v.fields();
        assert(m.elems()[0] == m.ty());
        assert(m.args() =~= f.skip(1));
        lemma_str_valid(v.secret);
        if r is Some { assert(r->0.fields() =~= f); }
    }
    /// C11: decoding the encoding of a value gives the value back
    #[verifier::spinoff_prover] pub proof fn lemma_roundtrip_clientend<'a>(v: ClientEnd<'a>, m: msg::Message<'a>, r: Option<ClientEnd<'a>>)
        requires v.client_id.wf(), m.wf(), m.elems() == v.fields(), <ClientEnd<'a> as msg::DecodeMessage<'a>>::decodes_msg(&m, r),
        ensures r is Some, r->0.fields() == v.fields(),
    {
        let f = v.fields();
        assert(m.elems()[0] == m.ty());
        assert(m.args() =~= f.skip(1));
        
        if r is Some { assert(r->0.fields() =~= f); }
    }
    pub proof fn lemma_opt_valid(s: Option<&str>)
        ensures valid_utf8(opt_text(s)), opt_text(s).len() == 0 ==> opt_text(s) == Seq::<u8>::empty(),
    { match s { Some(x) => { lemma_str_valid(x); assert(x.spec_bytes().len() == 0 ==> x.spec_bytes() =~= Seq::empty()); } None => { lemma_empty_args(seq![Seq::empty()]); assert(seq![Seq::<u8>::empty()][0].len() == 0); } } }
    pub proof fn lemma_str_valid(s: &str) ensures valid_utf8(s.spec_bytes()) { vstd::utf8::encode_utf8_decode_utf8(s@); vstd::utf8::encode_utf8_valid_utf8(s@); }

## msg::core::<ClientNew as DecodeMessage>
ghost
    open spec fn decodes_msg(m: &msg::Message<'a>, r: Option<Self>) -> bool {
        match r {
            Some(v) => m.ty() == "core1.client-new".spec_bytes() && m.args().len() == 1 && v.secret.spec_bytes() == m.args()[0],
            None => m.ty() != "core1.client-new".spec_bytes() || m.args().len() != 1 || !valid_utf8(m.args()[0]),
        }
    }

## msg::core::<ClientNew as EncodeMessage>
ghost
    open spec fn fields(&self) -> Seq<Seq<u8>> { msg2("core1.client-new".spec_bytes(), self.secret.spec_bytes()) }

## msg::core::<ClientEnd as DecodeMessage>
ghost
    open spec fn decodes_msg(m: &msg::Message<'a>, r: Option<Self>) -> bool {
        match r {
            Some(v) => m.ty() == "core1.client-end".spec_bytes() && m.args().len() == 1 && ClientID::parses(m.args()[0], Some(v.client_id)),
            None => m.ty() != "core1.client-end".spec_bytes() || m.args().len() != 1 || !client_id_ok(m.args()[0]),
        }
    }

## msg::core::<ClientEnd as EncodeMessage>
ghost
    open spec fn fields(&self) -> Seq<Seq<u8>> { msg2("core1.client-end".spec_bytes(), self.client_id.text()) }

## msg::core::<ClientMake as DecodeMessage>::decode_message
insert body_start
    proof { lemma_empty_args(msg.args()); }

## msg::core::<ClientMake as EncodeMessage>::encode
insert body_start
    proof { lemma_msg5(self.fields()); }

## msg::core::<{T} as EncodeMessage>::encode for T=ClientNew,ClientEnd
insert body_start
    proof { lemma_msg2(self.fields()); }

# ---------------------------------------------------------------- posix
## msg::posix::extra
ghost
    use vstd::prelude::*;
    #[allow(unused_imports)] use crate::common::core::msg::{EncodeMessage as _, DecodeMessage as _};
    use vstd::utf8::valid_utf8;
    use crate::vident::*;
    use crate::vpath::*;
    pub use crate::msg::core::{opt_text, opt_is, four, not_four};
    /// C11: decoding the encoding of a value gives the value back
    #[verifier::spinoff_prover] pub proof fn lemma_roundtrip_clienthello<'a>(v: ClientHello<'a>, m: msg::Message<'a>, r: Option<ClientHello<'a>>)
        requires m.wf(), m.elems() == v.fields(), <ClientHello<'a> as msg::DecodeMessage<'a>>::decodes_msg(&m, r),
        ensures r is Some, r->0.fields() == v.fields(),
    {
        let f = v.fields();
        assert(m.elems()[0] == m.ty());
        assert(m.args() =~= f.skip(1));
        crate::msg::core::lemma_str_valid(v.secret);
        if r is Some { assert(r->0.fields() =~= f); }
    }
    /// C11: decoding the encoding of a value gives the value back
    #[verifier::spinoff_prover] pub proof fn lemma_roundtrip_stdinhello<'a>(v: StdinHello<'a>, m: msg::Message<'a>, r: Option<StdinHello<'a>>)
        requires m.wf(), m.elems() == v.fields(), <StdinHello<'a> as msg::DecodeMessage<'a>>::decodes_msg(&m, r),
        ensures r is Some, r->0.fields() == v.fields(),
    {
        let f = v.fields();
        assert(m.elems()[0] == m.ty());
        assert(m.args() =~= f.skip(1));
        crate::msg::core::lemma_str_valid(v.secret);
        if r is Some { assert(r->0.fields() =~= f); }
    }
    /// C11: decoding the encoding of a value gives the value back
    #[verifier::spinoff_prover] pub proof fn lemma_roundtrip_stdouthello<'a>(v: StdoutHello<'a>, m: msg::Message<'a>, r: Option<StdoutHello<'a>>)
        requires m.wf(), m.elems() == v.fields(), <StdoutHello<'a> as msg::DecodeMessage<'a>>::decodes_msg(&m, r),
        ensures r is Some, r->0.fields() == v.fields(),
    {
        let f = v.fields();
        assert(m.elems()[0] == m.ty());
        assert(m.args() =~= f.skip(1));
        crate::msg::core::lemma_str_valid(v.secret);
        if r is Some { assert(r->0.fields() =~= f); }
    }
    /// C11: decoding the encoding of a value gives the value back
    #[verifier::spinoff_prover] pub proof fn lemma_roundtrip_parenthello<'a>(v: ParentHello<'a>, m: msg::Message<'a>, r: Option<ParentHello<'a>>)
        requires m.wf(), m.elems() == v.fields(), <ParentHello<'a> as msg::DecodeMessage<'a>>::decodes_msg(&m, r),
        ensures r is Some, r->0.fields() == v.fields(),
    {
        let f = v.fields();
        assert(m.elems()[0] == m.ty());
        assert(m.args() =~= f.skip(1));
        crate::msg::core::lemma_str_valid(v.client_secret);
        if r is Some { assert(r->0.fields() =~= f); }
    }
    /// C11: decoding the encoding of a value gives the value back
    #[verifier::spinoff_prover] pub proof fn lemma_roundtrip_serverhello<'a>(v: ServerHello<'a>, m: msg::Message<'a>, r: Option<ServerHello<'a>>)
        requires v.client_id.wf(), m.wf(), m.elems() == v.fields(), <ServerHello<'a> as msg::DecodeMessage<'a>>::decodes_msg(&m, r),
        ensures r is Some, r->0.fields() == v.fields(),
    {
        let f = v.fields();
        assert(m.elems()[0] == m.ty());
        assert(m.args() =~= f.skip(1));
        crate::msg::core::lemma_opt_valid(v.stdin_screen_id); crate::msg::core::lemma_opt_valid(v.stdout_screen_id); crate::msg::core::lemma_opt_valid(v.stderr_screen_id);
        if r is Some { assert(r->0.fields() =~= f); }
    }

## msg::posix::<ClientHello as DecodeMessage>
ghost
    open spec fn decodes_msg(m: &msg::Message<'a>, r: Option<Self>) -> bool {
        match r {
            Some(v) => m.ty() == "posix1.client-hello".spec_bytes() && m.args().len() == 1 && v.secret.spec_bytes() == m.args()[0],
            None => m.ty() != "posix1.client-hello".spec_bytes() || m.args().len() != 1 || !valid_utf8(m.args()[0]),
        }
    }

## msg::posix::<ClientHello as EncodeMessage>
ghost
    open spec fn fields(&self) -> Seq<Seq<u8>> { msg2("posix1.client-hello".spec_bytes(), self.secret.spec_bytes()) }

## msg::posix::<StdinHello as DecodeMessage>
ghost
    open spec fn decodes_msg(m: &msg::Message<'a>, r: Option<Self>) -> bool {
        match r {
            Some(v) => m.ty() == "posix1.stdin-hello".spec_bytes() && m.args().len() == 1 && v.secret.spec_bytes() == m.args()[0],
            None => m.ty() != "posix1.stdin-hello".spec_bytes() || m.args().len() != 1 || !valid_utf8(m.args()[0]),
        }
    }

## msg::posix::<StdinHello as EncodeMessage>
ghost
    open spec fn fields(&self) -> Seq<Seq<u8>> { msg2("posix1.stdin-hello".spec_bytes(), self.secret.spec_bytes()) }

## msg::posix::<StdoutHello as DecodeMessage>
ghost
    open spec fn decodes_msg(m: &msg::Message<'a>, r: Option<Self>) -> bool {
        match r {
            Some(v) => m.ty() == "posix1.stdout-hello".spec_bytes() && m.args().len() == 1 && v.secret.spec_bytes() == m.args()[0],
            None => m.ty() != "posix1.stdout-hello".spec_bytes() || m.args().len() != 1 || !valid_utf8(m.args()[0]),
        }
    }

## msg::posix::<StdoutHello as EncodeMessage>
ghost
    open spec fn fields(&self) -> Seq<Seq<u8>> { msg2("posix1.stdout-hello".spec_bytes(), self.secret.spec_bytes()) }

## msg::posix::<ParentHello as DecodeMessage>
ghost
    open spec fn decodes_msg(m: &msg::Message<'a>, r: Option<Self>) -> bool {
        match r {
            Some(v) => m.ty() == "posix1.parent-hello".spec_bytes() && m.args().len() == 2 && v.client_secret.spec_bytes() == m.args()[0]
                && path_bytes(v.server_socket_path) == m.args()[1],
            None => m.ty() != "posix1.parent-hello".spec_bytes() || m.args().len() != 2 || !valid_utf8(m.args()[0]),
        }
    }

## msg::posix::<ParentHello as EncodeMessage>
ghost
    open spec fn fields(&self) -> Seq<Seq<u8>> {
        msg3("posix1.parent-hello".spec_bytes(), self.client_secret.spec_bytes(), path_bytes(self.server_socket_path))
    }

## msg::posix::<ServerHello as DecodeMessage>
ghost
    open spec fn decodes_msg(m: &msg::Message<'a>, r: Option<Self>) -> bool {
        match r {
            Some(v) => m.ty() == "posix1.server-hello".spec_bytes() && m.args().len() == 4 && four(m.args(), v.client_id, v.stdin_screen_id, v.stdout_screen_id, v.stderr_screen_id),
            None => m.ty() != "posix1.server-hello".spec_bytes() || m.args().len() != 4 || not_four(m.args()),
        }
    }

## msg::posix::<ServerHello as EncodeMessage>
ghost
    open spec fn fields(&self) -> Seq<Seq<u8>> {
        msg5("posix1.server-hello".spec_bytes(), self.client_id.text(), opt_text(self.stdin_screen_id), opt_text(self.stdout_screen_id), opt_text(self.stderr_screen_id))
    }

## msg::posix::<ServerHello as DecodeMessage>::decode_message
insert body_start
    proof { lemma_empty_args(msg.args()); }

## msg::posix::<ServerHello as EncodeMessage>::encode
insert body_start
    proof { lemma_msg5(self.fields()); }

## msg::posix::<ParentHello as EncodeMessage>::encode
insert body_start
    proof { lemma_msg3(self.fields()); }

## msg::posix::<{T} as EncodeMessage>::encode for T=ClientHello,StdinHello,StdoutHello
insert body_start
    proof { lemma_msg2(self.fields()); }
