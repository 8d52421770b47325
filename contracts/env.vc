# src/client/env.rs

## client::env::Environment
ghost
    impl Environment {
        /// the bytes that were received
        pub open spec fn got(&self) -> Seq<u8> { self.buf@.take(self.filled as int) }
        pub open spec fn wf(&self) -> bool { self.filled <= 1024 }
    }

## client::env::extra
ghost
    use vstd::prelude::*;
    use vstd::utf8::*;
    use vstd::string::*;
    use crate::vmsg::*;
    use crate::vspec::*;
    use crate::vstdx::*;
    use crate::vident::*;
    /// what a client learns from the bytes on descriptor 60
    pub enum Learns { Nothing, Corrupt(PKind), Invalid(Seq<Seq<u8>>), Path(Seq<u8>) }
    pub open spec fn is_hello(a: Seq<Seq<u8>>) -> bool {
        a.len() == 3 && a[0] == "posix1.parent-hello".spec_bytes() && valid_utf8(a[1])
    }
    pub open spec fn learns(b: Seq<u8>) -> Learns {
        match sp_parse(b) {
            Err((k, _)) => Learns::Corrupt(k),
            Ok(_) => if is_hello(sp_elems(b)) { Learns::Path(sp_elems(b)[2]) } else { Learns::Invalid(sp_elems(b)) },
        }
    }
    /// the bytes that can be received
    pub open spec fn receivable(s: Seq<u8>) -> Seq<u8> { if s.len() <= 1024 { s } else { s.take(1024) } }
    /// it does not matter how much is received beyond the first message or the first error
    pub proof fn lemma_learns(s: Seq<u8>, k: int)
        requires 0 <= k <= receivable(s).len(), k == receivable(s).len() || !(sp_parse(s.take(k)) matches Err((PKind::Eof, _))),
        ensures learns(s.take(k)) == learns(receivable(s)),
    {
        let w = receivable(s);
        let p = s.take(k);
        assert(w =~= p + w.skip(k));
        if k == w.len() { assert(w =~= p); } else { lemma_parse_ext(p, w.skip(k)); }
    }
    /// the path is learnt exactly from streams that start with a valid parent hello
    pub proof fn lemma_learns_path(b: Seq<u8>, q: Seq<u8>)
        requires b.len() <= 1024,
        ensures learns(b) == Learns::Path(q) <==> exists|secret: Seq<u8>| valid_utf8(secret) && #[trigger] has_at(b, 0, msg_text(hello_elems(secret, q))),
    {
        if learns(b) == Learns::Path(q) {
            lemma_parse_sound(b);
            let a = sp_elems(b);
            assert(a =~= hello_elems(a[1], q));
            let t = msg_text(a);
            assert(b.subrange(0, t.len() as int) =~= b.take(t.len() as int));
            assert(has_at(b, 0, msg_text(hello_elems(a[1], q))));
        }
        if exists|secret: Seq<u8>| valid_utf8(secret) && #[trigger] has_at(b, 0, msg_text(hello_elems(secret, q))) {
            let secret = choose|secret: Seq<u8>| valid_utf8(secret) && #[trigger] has_at(b, 0, msg_text(hello_elems(secret, q)));
            let a = hello_elems(secret, q);
            lemma_hello_type();
            lemma_elem_len(a, 1); lemma_elem_len(a, 2);
            lemma_parse_complete(b, a);
        }
    }
    pub proof fn lemma_hello_type()
        ensures msgtype_ok("posix1.parent-hello".spec_bytes()),
    {
        let l = "posix1.parent-hello".spec_bytes();
        let b = seq![112u8, 111u8, 115u8, 105u8, 120u8, 49u8, 46u8, 112u8, 97u8, 114u8, 101u8, 110u8, 116u8, 45u8, 104u8, 101u8, 108u8, 108u8, 111u8];
        assert(l == b);
        let m = b.take(6);
        assert(m.take(5) =~= seq![112u8, 111u8, 115u8, 105u8, 120u8]);
        assert(ident_ok(m.take(5)));
        reveal_with_fuel(dec, 2);
        assert(m.skip(5) =~= dec(1));
        assert(module_is(m, 5, 1));
        assert(b.skip(7) =~= seq![112u8, 97u8, 114u8, 101u8, 110u8, 116u8, 45u8, 104u8, 101u8, 108u8, 108u8, 111u8]);
        assert(ident_ok(b.skip(7)));
        assert(scoped_is(b, 6));
    }
    pub open spec fn hello_elems(secret: Seq<u8>, q: Seq<u8>) -> Seq<Seq<u8>> { seq!["posix1.parent-hello".spec_bytes(), secret, q] }

## client::env::Environment::discover
ensures
  - match (r, crate::vio::s::fd_first_error(60)) {
        (Ok(v), Some(e)) => !v.has_vt6_terminal && (e.errno() == Some(9i32) || e.errno() == Some(22i32)),
        (Err(x), Some(e)) => x == e && e.errno() != Some(9i32) && e.errno() != Some(22i32),
        (Ok(v), None) => v.has_vt6_terminal,
        (Err(x), None) => true,
    }
  - r matches Ok(v) ==> v.wf()
  - r matches Ok(v) ==> (v.has_vt6_terminal ==> v.filled <= crate::vio::s::fd_stream(60).len() && v.got() == crate::vio::s::fd_stream(60).take(v.filled as int))
  - r matches Ok(v) ==> (v.has_vt6_terminal ==> learns(v.got()) == learns(receivable(crate::vio::s::fd_stream(60))))
insert body_start
    proof {
        let s = crate::vio::s::fd_stream(60);
        assert forall|k: int| 0 <= k <= receivable(s).len() && (k == receivable(s).len() || !(sp_parse(s.take(k)) matches Err((PKind::Eof, _))))
            implies #[trigger] learns(s.take(k)) == learns(receivable(s)) by { lemma_learns(s, k); }
    }
loop 1
invariant
  - env.filled <= 1024
  - env.has_vt6_terminal
  - crate::vio::s::fd_first_error(60) is None
  - f.fd() == 60
  - f.pos() == env.filled
  - f.pos() <= crate::vio::s::fd_stream(60).len()
  - env.got() == crate::vio::s::fd_stream(60).take(env.filled as int)
loop_ensures
  - env.filled == 1024 || env.filled == crate::vio::s::fd_stream(60).len() || !(sp_parse(env.got()) matches Err((PKind::Eof, _)))
loop_decreases
  - 1024 - env.filled

## client::env::Environment::parse
requires
  - self.wf()
ensures
  - match r {
        Ok(e) => self.has_vt6_terminal && learns(self.got()) == Learns::Path(path_bytes(e.hello.server_socket_path)),
        Err(EnvironmentError::NoVT6Terminal) => !self.has_vt6_terminal,
        Err(EnvironmentError::CorruptParentHello(e)) => self.has_vt6_terminal && learns(self.got()) == Learns::Corrupt(e.kind.code()),
        Err(EnvironmentError::InvalidParentHello(m)) => self.has_vt6_terminal && learns(self.got()) == Learns::Invalid(m.elems()),
    }
insert body_start
    proof { assert forall|s: &str| valid_utf8(#[trigger] s.spec_bytes()) by { crate::msg::core::lemma_str_valid(s); } }

## client::env::EnvironmentRef::server_socket_path
ensures
  - r == self.hello.server_socket_path
