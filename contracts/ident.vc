# src/common/core/identifiers.rs

## common::core::identifiers::is_client_id_char
ensures
  - r == (is_ascii_c(ch) && is_alnum_b(ch as u8))

## common::core::identifiers::is_ident_leader
ensures
  - r == (is_ascii_c(ch) && is_leader_b(ch as u8))

## common::core::identifiers::is_ident_char
ensures
  - r == (is_ascii_c(ch) && is_ident_b(ch as u8))

## common::core::identifiers::is_digit
ensures
  - r == (is_ascii_c(ch) && is_digit_b(ch as u8))

# ---------------------------------------------------------------- ClientID
## common::core::identifiers::ClientID
ghost
    impl<'a> ClientID<'a> {
        pub open spec fn text(&self) -> Seq<u8> { self.0.spec_bytes() }
        pub open spec fn wf(&self) -> bool { client_id_ok(self.text()) }
        pub open spec fn parses(s: Seq<u8>, r: Option<Self>) -> bool {
            match r { Some(v) => v.text() == s && v.wf(), None => !client_id_ok(s) }
        }
    }
    // derived equality compares the text
    impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for ClientID<'a> {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &ClientID<'a>) -> bool { self.text() == o.text() }
    }

## common::core::identifiers::<ClientID as EncodedArgument>
ghost
    open spec fn enc_text(&self) -> Seq<u8> { self.text() }

## common::core::identifiers::ClientID::parse
ensures
  - ClientID::parses(input.spec_bytes(), r)
insert body_start
    proof { lemma_all_chars(input@); vstd::utf8::encode_utf8_decode_utf8(input@); }

## common::core::identifiers::ClientID::as_str
ensures
  - r@ == self.0@
  - r.spec_bytes() == self.text()

# ---------------------------------------------------------------- Identifier
## common::core::identifiers::Identifier
ghost
    impl<'a> Identifier<'a> {
        pub open spec fn text(&self) -> Seq<u8> { self.0.spec_bytes() }
        pub open spec fn wf(&self) -> bool { ident_ok(self.text()) }
        pub open spec fn parses(s: Seq<u8>, r: Option<Self>) -> bool {
            match r { Some(v) => v.text() == s && v.wf(), None => !ident_ok(s) }
        }
    }

## common::core::identifiers::<Identifier as EncodedArgument>
ghost
    open spec fn enc_text(&self) -> Seq<u8> { self.text() }

## common::core::identifiers::Identifier::parse
ensures
  - Identifier::parses(input.spec_bytes(), r)

## common::core::identifiers::Identifier::as_str
ensures
  - r@ == self.0@
  - r.spec_bytes() == self.text()

## common::core::identifiers::parse_ident_or_module_ident
ensures
  - match r {
        None => !ident_ok(input.spec_bytes()) && !module_ok(input.spec_bytes()),
        Some((name, None)) => ident_ok(input.spec_bytes()) && !module_ok(input.spec_bytes()) && name.text() == input.spec_bytes(),
        Some((name, Some(v))) => module_is(input.spec_bytes(), name.text().len() as int, v as int) && !ident_ok(input.spec_bytes())
            && name.text() == input.spec_bytes().take(name.text().len() as int),
    }
insert body_start
    let ghost cs = input@;
    let ghost bs = input.spec_bytes();
    let ghost mut n: int = 0;
    proof {
        lemma_ascii_prefix(cs, 0);
        if cs.len() > 0 { lemma_first_byte(cs); }
        assert(bs.len() == 0 ==> cs.len() == 0);
    }
insert before_loop 1
    proof {
        n = 1;
        lemma_ascii_scalar(cs[0]);
        lemma_ascii_prefix(cs, 1);
        assert(cs.skip(1) =~= cs.skip(0).skip(1));
    }
loop 1
invariant_except_break
  - cs == input@
  - bs == input.spec_bytes()
  - bs == vstd::utf8::encode_utf8(cs)
  - 1 <= n <= cs.len()
  - ci_rest(iter) == cs.skip(n)
  - ci_index(iter) == n
  - forall|i: int| 0 <= i < n ==> is_ascii_c(#[trigger] cs[i])
  - forall|i: int| 0 <= i < n ==> is_ident_b(#[trigger] bs[i])
  - n <= bs.len()
  - is_leader_b(bs[0])
loop_ensures
  - cs == input@ && bs == input.spec_bytes() && bs == vstd::utf8::encode_utf8(cs)
  - start_idx_of_version == n
  - 1 <= n < bs.len()
  - is_leader_b(bs[0])
  - forall|i: int| 0 <= i < n ==> is_ident_b(#[trigger] bs[i])
  - vstd::utf8::is_char_boundary(bs, n)
  - is_digit_b(bs[n]) && bs[n] != 48
loop_decreases
  - cs.len() - n
insert loop_start 1
    proof {
        lemma_ascii_prefix(cs, n);
        lemma_module_end_or(bs, n);
        if n < cs.len() {
            assert(cs.skip(n)[0] == cs[n]);
            if is_ascii_c(cs[n]) && is_ident_b(cs[n] as u8) {
                lemma_ascii_scalar(cs[n]);
                lemma_ascii_prefix(cs, n + 1);
                assert(cs.skip(n).skip(1) =~= cs.skip(n + 1));
                n = n + 1;
            }
        }
    }
insert after_loop 1
    proof {
        lemma_module_end(bs, n);
        lemma_dec(0); assert(bs.skip(n)[0] == bs[n]);
        assert(bs.take(n)[0] == bs[0]);
        assert(ident_ok(bs.take(n)));
        assert forall|k: int, v: int| #[trigger] module_is(bs, k, v) implies exists|u: u16| int_text(u as int) == bs.skip(n) by { assert(int_text(v as u16 as int) == bs.skip(n)); }
        assert(bs.skip(n) =~= bs.subrange(n, bs.len() as int));
        assert(bs.take(n) =~= bs.subrange(0, n));
    }

# ---------------------------------------------------------------- ModuleIdentifier
## common::core::identifiers::ModuleIdentifier
ghost
    impl<'a> ModuleIdentifier<'a> {
        pub open spec fn text(&self) -> Seq<u8> { self.source.spec_bytes() }
        pub open spec fn wf(&self) -> bool {
            module_is(self.text(), self.name.text().len() as int, self.major_version as int)
            && self.name.text() == self.text().take(self.name.text().len() as int)
        }
        pub open spec fn parses(s: Seq<u8>, r: Option<Self>) -> bool {
            match r { Some(v) => v.text() == s && v.wf(), None => !module_ok(s) }
        }
    }

## common::core::identifiers::<ModuleIdentifier as EncodedArgument>
ghost
    open spec fn enc_text(&self) -> Seq<u8> { self.text() }

## common::core::identifiers::ModuleIdentifier::parse
ensures
  - ModuleIdentifier::parses(input.spec_bytes(), r)

## common::core::identifiers::ModuleIdentifier::as_str
ensures
  - r@ == self.source@
  - r.spec_bytes() == self.text()

## common::core::identifiers::ModuleIdentifier::name
ensures
  - r == self.name

## common::core::identifiers::ModuleIdentifier::major_version
ensures
  - r == self.major_version

## common::core::identifiers::ModuleIdentifier::with_minor_version
ensures
  - r.module == *self
  - r.minor_version == minor_version

# ---------------------------------------------------------------- ModuleVersion
## common::core::identifiers::ModuleVersion
ghost
    impl<'a> ModuleVersion<'a> {
        pub open spec fn text(&self) -> Seq<u8> { self.module.text() + seq![46u8] + dec(self.minor_version as nat) }
        pub open spec fn wf(&self) -> bool { self.module.wf() }
        pub open spec fn parses(s: Seq<u8>, r: Option<Self>) -> bool {
            match r { Some(v) => v.text() == s && v.wf(), None => !modver_ok(s) }
        }
    }

## common::core::identifiers::<ModuleVersion as EncodeArgument>
ghost
    open spec fn enc(&self) -> Seq<u8> { self.text() }

## common::core::identifiers::<ModuleVersion as EncodeArgument>::get_size
insert body_start
    proof { lemma_int_text(self.minor_version as int); lemma_dec_len_mono(self.minor_version as nat, 99999); assert(dec(99999).len() == 5) by (compute); }

## common::core::identifiers::<ModuleVersion as EncodeArgument>::encode
insert body_start
    proof { lemma_int_text(self.minor_version as int); lemma_dec_len_mono(self.minor_version as nat, 99999); assert(dec(99999).len() == 5) by (compute); }

## common::core::identifiers::ModuleVersion::parse
ensures
  - ModuleVersion::parses(input.spec_bytes(), r)
insert body_start
    proof {
        lemma_dot_split(input@);
        if let Some(i) = find_spec::<char>(input.spec_bytes(), '.') { assert(first_dot(input.spec_bytes(), i as int)); }
    }

## common::core::identifiers::ModuleVersion::module
ensures
  - r == self.module

## common::core::identifiers::ModuleVersion::minor_version
ensures
  - r == self.minor_version

# ---------------------------------------------------------------- ScopedIdentifier
## common::core::identifiers::ScopedIdentifier
ghost
    impl<'a> ScopedIdentifier<'a> {
        pub open spec fn text(&self) -> Seq<u8> { self.source.spec_bytes() }
        pub open spec fn wf(&self) -> bool {
            self.module.wf() && self.member.wf() && self.text() == self.module.text() + seq![46u8] + self.member.text()
        }
        pub open spec fn parses(s: Seq<u8>, r: Option<Self>) -> bool {
            match r { Some(v) => v.text() == s && v.wf() && scoped_ok(s), None => !scoped_ok(s) }
        }
    }

## common::core::identifiers::<ScopedIdentifier as EncodedArgument>
ghost
    open spec fn enc_text(&self) -> Seq<u8> { self.text() }

## common::core::identifiers::ScopedIdentifier::parse
ensures
  - ScopedIdentifier::parses(input.spec_bytes(), r)
insert body_start
    proof {
        lemma_dot_split(input@);
        if let Some(i) = find_spec::<char>(input.spec_bytes(), '.') { assert(first_dot(input.spec_bytes(), i as int)); }
    }

## common::core::identifiers::ScopedIdentifier::as_str
ensures
  - r@ == self.source@
  - r.spec_bytes() == self.text()

## common::core::identifiers::ScopedIdentifier::module
ensures
  - r == self.module
  - self.wf() ==> scoped_is(self.text(), r.text().len() as int) && self.text().take(r.text().len() as int) == r.text()
insert body_start
    proof {
        if self.wf() {
            let d = self.module.text().len() as int;
            assert(self.text().take(d) =~= self.module.text());
            assert(self.text().skip(d + 1) =~= self.member.text());
            assert(module_is(self.module.text(), self.module.name.text().len() as int, self.module.major_version as int));
        }
    }

## common::core::identifiers::ScopedIdentifier::member
ensures
  - r == self.member

# ---------------------------------------------------------------- MessageType
## common::core::identifiers::MessageType
ghost
    impl<'a> MessageType<'a> {
        pub open spec fn text(&self) -> Seq<u8> {
            match *self { Want => b_want(), Have => b_have(), Nope => b_nope(), Scoped(s) => s.text() }
        }
        pub open spec fn wf(&self) -> bool { match *self { Scoped(s) => s.wf(), _ => true } }
        pub open spec fn parses(s: Seq<u8>, r: Option<Self>) -> bool {
            match r { Some(v) => v.text() == s && v.wf(), None => !msgtype_ok(s) }
        }
    }
    // derived equality compares variants and fields
    impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for MessageType<'a> {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &MessageType<'a>) -> bool {
            match (*self, *o) {
                (Want, Want) => true, (Have, Have) => true, (Nope, Nope) => true,
                (Scoped(a), Scoped(b)) => a.text() == b.text() && a.module.text() == b.module.text() && a.member.text() == b.member.text()
                    && a.module.name.text() == b.module.name.text() && a.module.major_version == b.module.major_version,
                _ => false,
            }
        }
    }
    pub proof fn lemma_modver_text<'a>(v: &ModuleVersion<'a>)
        requires v.wf(),
        ensures modver_ok(v.text()),
    {
        let d = v.module.text().len() as int;
        let t = v.text();
        let w = v.minor_version as int;
        assert(t.take(d) =~= v.module.text());
        assert(t.skip(d + 1) =~= dec(w as nat));
        lemma_int_text(w);
        assert(module_is(v.module.text(), v.module.name.text().len() as int, v.module.major_version as int));
        assert(modver_is(t, d, w));
    }
    /// the three eternal types and the scoped ones exclude each other
    pub proof fn lemma_type_variant<'a>(m: &MessageType<'a>)
        requires m.wf(),
        ensures (*m is Want) == (m.text() == b_want()), (*m is Have) == (m.text() == b_have()), (*m is Nope) == (m.text() == b_nope()),
            (*m is Scoped) == scoped_ok(m.text()),
    {
        lemma_types();
        if let Scoped(s) = *m {
            let d = s.module.text().len() as int;
            assert(s.text().take(d) =~= s.module.text());
            assert(s.text().skip(d + 1) =~= s.member.text());
            assert(module_is(s.module.text(), s.module.name.text().len() as int, s.module.major_version as int));
            assert(scoped_is(s.text(), d));
        }
    }

## common::core::identifiers::<MessageType as EncodedArgument>
ghost
    open spec fn enc_text(&self) -> Seq<u8> { self.text() }

## common::core::identifiers::MessageType::parse
ensures
  - MessageType::parses(input.spec_bytes(), r)
  - r is Some && r->0 is Scoped ==> scoped_ok(input.spec_bytes())

## common::core::identifiers::MessageType::as_str
ensures
  - r.spec_bytes() == self.text()

# ---------------------------------------------------------------- OwnedClientID
## common::core::identifiers::OwnedClientID
ghost
    impl OwnedClientID {
        pub open spec fn text(&self) -> Seq<u8> { vstd::utf8::encode_utf8(self.0@) }
    }
    impl<'a, 'b> vstd::std_specs::convert::FromSpecImpl<&'a ClientID<'b>> for OwnedClientID {
        open spec fn obeys_from_spec() -> bool { false }
        open spec fn from_spec(id: &'a ClientID<'b>) -> Self { arbitrary() }
    }

## common::core::identifiers::<OwnedClientID as From>::from
ensures
  - r.0@ == id.0@

## common::core::identifiers::OwnedClientID::as_ref
ensures
  - r.0@ == self.0@
