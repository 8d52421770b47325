# src/common/core/msg/mod.rs: parsing

## common::core::msg::BufferTooSmallError

## common::core::msg::ParseErrorKind
attr needderive PartialEq
attr addderive Structural
ghost
    impl ParseErrorKind {
        pub open spec fn code(self) -> PKind {
            match self {
                UnexpectedEOF => PKind::Eof,
                ExpectedMessageOpener => PKind::Opener,
                ExpectedMessageCloser => PKind::Closer,
                ExpectedDecimalNumber => PKind::Number,
                DecimalNumberTooLarge => PKind::TooLarge,
                DecimalNumberHasLeadingZeroes => PKind::Zeroes,
                ExpectedListSigil => PKind::ListSigil,
                ExpectedStringSigil => PKind::StrSigil,
                ExpectedStringCloser => PKind::StrCloser,
                ExpectedMessageType => PKind::NoType,
                InvalidMessageType => PKind::BadType,
            }
        }
    }

## common::core::msg::ParseErrorKind::to_str
drop text rendering, not claimed

## common::core::msg::ParseError
ghost
    impl<'s> ParseError<'s> {
        /// the kind and the offset, on the given buffer
        pub open spec fn is(&self, b: Seq<u8>, e: (PKind, int)) -> bool {
            self.buffer@ == b && (self.kind.code(), self.offset as int) == e
        }
    }

## common::core::msg::ParseError::is_incomplete
ensures
  - r == (self.kind.code() == PKind::Eof)

## common::core::msg::Cursor
ghost
    impl<'s> Cursor<'s> {
        pub open spec fn wf(&self) -> bool { self.offset <= self.buffer@.len() }
        /// the result of consuming something, given what the specification says about it
        pub open spec fn steps<T>(&self, post: &Self, r: Result<T, ParseError<'s>>, e: Result<int, (PKind, int)>) -> bool {
            post.buffer == self.buffer && post.wf() && match (r, e) {
                (Ok(_), Ok(o)) => post.offset == o,
                (Err(x), Err(y)) => x.is(self.buffer@, y),
                _ => false,
            }
        }
    }

## common::core::msg::Cursor::new
ensures
  - r.buffer@ == buffer@
  - r.buffer == buffer
  - r.offset == 0

## common::core::msg::Cursor::error
ensures
  - r is Err
  - r->Err_0.buffer == self.buffer && r->Err_0.kind == kind && r->Err_0.offset == self.offset

## common::core::msg::Cursor::current
requires
  - self.wf()
ensures
  - self.offset < self.buffer@.len() ==> r is Ok && r->Ok_0 == self.buffer@[self.offset as int]
  - self.offset >= self.buffer@.len() ==> r is Err && r->Err_0.is(self.buffer@, (PKind::Eof, self.offset as int))

## common::core::msg::Cursor::consume_char
requires
  - old(self).wf()
ensures
  - old(self).steps(final(self), r, sp_char(old(self).buffer@, old(self).offset as int, c, kind.code()))

## common::core::msg::Cursor::consume_message_opener
requires
  - old(self).wf()
ensures
  - old(self).steps(final(self), r, sp_char(old(self).buffer@, old(self).offset as int, 123, PKind::Opener))

## common::core::msg::Cursor::consume_message_closer
requires
  - old(self).wf()
ensures
  - old(self).steps(final(self), r, sp_char(old(self).buffer@, old(self).offset as int, 125, PKind::Closer))

## common::core::msg::Cursor::consume_list_sigil
requires
  - old(self).wf()
ensures
  - old(self).steps(final(self), r, sp_char(old(self).buffer@, old(self).offset as int, 124, PKind::ListSigil))

## common::core::msg::Cursor::consume_string_sigil
requires
  - old(self).wf()
ensures
  - old(self).steps(final(self), r, sp_char(old(self).buffer@, old(self).offset as int, 58, PKind::StrSigil))

## common::core::msg::Cursor::consume_string_closer
requires
  - old(self).wf()
ensures
  - old(self).steps(final(self), r, sp_char(old(self).buffer@, old(self).offset as int, 44, PKind::StrCloser))

## common::core::msg::Cursor::consume_decimal
requires
  - old(self).wf()
ensures
  - final(self).buffer == old(self).buffer && final(self).wf()
  - match (r, sp_dec(old(self).buffer@, old(self).offset as int)) {
        (Ok(n), Ok(x)) => n as int == x.0 && final(self).offset as int == x.1,
        (Err(e), Err(y)) => e.is(old(self).buffer@, y),
        _ => false,
    }
insert body_start
    let ghost b = self.buffer@;
    let ghost o = self.offset as int;
    proof { if o <= b.len() { lemma_digits_end(b, o); } }
loop 1
invariant
  - self.buffer == old(self).buffer
  - b == self.buffer@
  - o == old(self).offset
  - o <= self.offset <= b.len()
  - digits_end(b, self.offset as int) == digits_end(b, o)
loop_ensures
  - self.offset == digits_end(b, o)
loop_decreases
  - b.len() - self.offset
insert after_loop 1
    proof {
        lemma_digits_end(b, o);
        let d = b.subrange(o, digits_end(b, o));
        if digits_end(b, o) > o { lemma_ascii_valid(d); assert(is_digit_b(d[0])); assert(d[0] == b[o]); }
    }

## common::core::msg::Cursor::consume_string_contents
requires
  - old(self).wf()
ensures
  - final(self).buffer == old(self).buffer && final(self).wf()
  - old(self).offset + count > old(self).buffer@.len() ==> r is Err && r->Err_0.is(old(self).buffer@, (PKind::Eof, old(self).buffer@.len() as int))
  - old(self).offset + count <= old(self).buffer@.len() ==> r is Ok && final(self).offset == old(self).offset + count
        && r->Ok_0@ == old(self).buffer@.subrange(old(self).offset as int, old(self).offset + count)

## common::core::msg::isnum
ensures
  - r == is_digit_b(c)

# ---------------------------------------------------------------- MessageIterator
## common::core::msg::MessageIterator
ghost
    impl<'s> MessageIterator<'s> {
        pub open spec fn buf(&self) -> Seq<u8> { self.cursor.buffer@ }
        pub open spec fn at(&self) -> int { self.cursor.offset as int }
        /// the items still to come have been validated
        pub open spec fn wf(&self) -> bool {
            self.cursor.wf() && sp_items(self.buf(), self.at(), self.remaining_items as int) is Ok
        }
        /// the items still to come
        pub open spec fn items(&self) -> Seq<Seq<u8>> { sp_args(self.buf(), self.at(), self.remaining_items as int) }
    }
    pub proof fn lemma_iter_len<'s>(it: &MessageIterator<'s>)
        requires it.wf(),
        ensures it.items().len() == it.remaining_items,
    { lemma_sp_items_bounds(it.buf(), it.at(), it.remaining_items as int); }

## common::core::msg::MessageIterator::make
ensures
  - r.cursor == cursor && r.remaining_items == items

## common::core::msg::MessageIterator::next_or_error
requires
  - old(self).cursor.wf()
ensures
  - final(self).cursor.buffer == old(self).cursor.buffer && final(self).cursor.wf()
  - old(self).remaining_items == 0 ==> r is Ok && r->Ok_0 is None && *final(self) == *old(self)
  - old(self).remaining_items > 0 ==> final(self).remaining_items == old(self).remaining_items - 1 && match (r, sp_str(old(self).buf(), old(self).at())) {
        (Ok(s), Ok(x)) => s is Some && s->0@ == old(self).buf().subrange(x.0, x.1) && final(self).at() == x.2,
        (Err(e), Err(y)) => e.is(old(self).buf(), y),
        _ => false,
    }

## common::core::msg::MessageIterator::consume_and_validate
requires
  - self.cursor.wf()
ensures
  - match (r, sp_items(self.buf(), self.at(), self.remaining_items as int)) {
        (Ok(c), Ok(x)) => c.buffer == self.cursor.buffer && c.wf() && c.offset as int == x,
        (Err(e), Err(y)) => e.is(self.buf(), y),
        _ => false,
    }
loop 1
invariant
  - self_.cursor.buffer == self.cursor.buffer
  - self_.cursor.wf()
  - sp_items(self_.buf(), self_.at(), self_.remaining_items as int) == sp_items(self.buf(), self.at(), self.remaining_items as int)
loop_decreases
  - self_.remaining_items

## common::core::msg::MessageIterator::exactly1
requires
  - self.wf()
ensures
  - r is Some ==> self.items().len() == 1 && A::decodes(self.items()[0], r)
  - r is None ==> self.items().len() != 1 || A::decodes(self.items()[0], None)
insert body_start
    proof { lemma_iter_len(&self); }

## common::core::msg::MessageIterator::exactly2
requires
  - self.wf()
ensures
  - r is Some ==> self.items().len() == 2 && A::decodes(self.items()[0], Some(r->Some_0.0)) && B::decodes(self.items()[1], Some(r->Some_0.1))
  - r is None ==> self.items().len() != 2 || A::decodes(self.items()[0], None) || B::decodes(self.items()[1], None)
insert body_start
    proof { lemma_iter_len(&self); }

## common::core::msg::MessageIterator::exactly4
requires
  - self.wf()
ensures
  - r is Some ==> self.items().len() == 4 && A::decodes(self.items()[0], Some(r->Some_0.0)) && B::decodes(self.items()[1], Some(r->Some_0.1))
        && C::decodes(self.items()[2], Some(r->Some_0.2)) && D::decodes(self.items()[3], Some(r->Some_0.3))
  - r is None ==> self.items().len() != 4 || A::decodes(self.items()[0], None) || B::decodes(self.items()[1], None)
        || C::decodes(self.items()[2], None) || D::decodes(self.items()[3], None)
insert body_start
    proof { lemma_iter_len(&self); }

## common::core::msg::<MessageIterator as Iterator>
attr inherent

## common::core::msg::<MessageIterator as Iterator>::next
requires
  - old(self).wf()
ensures
  - final(self).wf()
  - old(self).items().len() == 0 ==> r is None && *final(self) == *old(self)
  - old(self).items().len() > 0 ==> r is Some && r->0@ == old(self).items()[0] && final(self).items() == old(self).items().skip(1)
        && final(self).remaining_items == old(self).remaining_items - 1

## common::core::msg::<MessageIterator as ExactSizeIterator>
attr inherent

## common::core::msg::<MessageIterator as ExactSizeIterator>::len
requires
  - self.wf()
ensures
  - r == self.items().len()
insert body_start
    proof { lemma_iter_len(self); }

## common::core::msg::char_needs_escaping
ensures
  - r == !crate::vfmt::is_plain(ch)

# ---------------------------------------------------------------- Message
## common::core::msg::Message
ghost
    impl<'s> Message<'s> {
        pub open spec fn wf(&self) -> bool { self.parsed_type.wf() && self.arguments.wf() }
        pub open spec fn ty(&self) -> Seq<u8> { self.parsed_type.text() }
        pub open spec fn args(&self) -> Seq<Seq<u8>> { self.arguments.items() }
        pub open spec fn elems(&self) -> Seq<Seq<u8>> { seq![self.ty()] + self.args() }
    }

## common::core::msg::Message::parse
ensures
  - match (r, sp_parse(buffer@)) {
        (Ok(x), Ok(n)) => x.1 as int == n && x.0.wf() && x.0.elems() == sp_elems(buffer@),
        (Err(e), Err(y)) => e.is(buffer@, y),
        _ => false,
    }
insert body_start
    proof { lemma_sp_head_sound(buffer@); lemma_grammar_all_utf8(); }

## common::core::msg::Message::parsed_type
ensures
  - r == self.parsed_type
  - self.wf() ==> (r is Want) == (self.ty() == b_want()) && (r is Have) == (self.ty() == b_have()) && (r is Nope) == (self.ty() == b_nope())
  - self.wf() ==> (r is Scoped) == scoped_ok(self.ty())
insert body_start
    proof { if self.wf() { crate::common::core::lemma_type_variant(&self.parsed_type); } }

## common::core::msg::Message::arguments
ensures
  - r == self.arguments
