# src/common/core/msg/format.rs

## common::core::msg::format::MessageFormatter
ghost
    impl<'b> MessageFormatter<'b> {
        /// what writing t at the cursor does
        /// the text t has been written over b0, as far as there is space
        #[verifier::opaque]
        pub open spec fn holds(&self, b0: Seq<u8>, t: Seq<u8>) -> bool {
            &&& self.cursor == t.len()
            &&& self.buffer@.len() == min_len(b0)
            &&& t.len() <= min_len(b0) ==> self.buffer@ =~= t + b0.subrange(t.len() as int, min_len(b0))
        }
        #[verifier::opaque]
        #[verifier::prophetic]
        pub open spec fn writes(&self, post: &Self, t: Seq<u8>) -> bool {
            &&& post.cursor == self.cursor + t.len()
            &&& post.buffer@.len() == self.buffer@.len()
            &&& final(post.buffer)@ == final(self.buffer)@
            &&& post.cursor <= self.buffer@.len() ==> post.buffer@ =~= self.buffer@.take(self.cursor as int) + t + self.buffer@.skip(post.cursor as int)
        }
    }

## common::core::msg::format::MessageFormatter::new
requires
  - num_arguments < usize::MAX
  - msg_head(type_name.spec_bytes(), num_arguments as int).len() <= usize::MAX
ensures
  - r.buffer@.len() == min_len(old(buffer)@)
  - r.remaining_arguments == num_arguments
  - r.cursor == msg_head(type_name.spec_bytes(), num_arguments as int).len()
  - r.cursor <= r.buffer@.len() ==> r.buffer@ =~= msg_head(type_name.spec_bytes(), num_arguments as int) + old(buffer)@.subrange(r.cursor as int, min_len(old(buffer)@))
  - final(buffer)@ =~= final(r.buffer)@ + old(buffer)@.skip(min_len(old(buffer)@))
  - r.holds(old(buffer)@, msg_head(type_name.spec_bytes(), num_arguments as int))
insert body_start
    proof { reveal(MessageFormatter::holds); reveal(MessageFormatter::writes); }

## common::core::msg::format::MessageFormatter::add_argument
requires
  - focus_c09() || old(self).remaining_arguments > 0
  - focus_c09() || old(self).cursor + netstr(arg.enc()).len() <= usize::MAX
  - arg.enc().len() <= usize::MAX
panics focus_c09() && old(self).remaining_arguments == 0
ensures
  - old(self).remaining_arguments > 0
  - final(self).remaining_arguments == old(self).remaining_arguments - 1
  - old(self).writes(final(self), netstr(arg.enc()))
  - final(self).cursor == old(self).cursor + netstr(arg.enc()).len()
  - final(final(self).buffer)@ == final(old(self).buffer)@
  - forall|b0: Seq<u8>, t: Seq<u8>| #[trigger] old(self).holds(b0, t) ==> final(self).holds(b0, t + netstr(arg.enc()))
insert body_start
    proof { reveal(MessageFormatter::holds); reveal(MessageFormatter::writes); }

## common::core::msg::format::MessageFormatter::finalize
requires
  - focus_c09() || self.remaining_arguments == 0
  - focus_c09() || self.cursor < usize::MAX
panics focus_c09() && self.remaining_arguments != 0
ensures
  - self.remaining_arguments == 0
  - self.cursor + 1 <= old(self.buffer)@.len() ==> r == Ok::<usize, BufferTooSmallError>((self.cursor + 1) as usize) && final(self.buffer)@ =~= old(self.buffer)@.update(self.cursor as int, 125)
  - self.cursor + 1 > old(self.buffer)@.len() ==> r == Err::<usize, BufferTooSmallError>(BufferTooSmallError((self.cursor + 1 - old(self.buffer)@.len()) as usize))
  - final(self.buffer)@.len() == old(self.buffer)@.len()
  - forall|b0: Seq<u8>, t: Seq<u8>| #[trigger] self.holds(b0, t) ==> {
        let m = t + seq![125u8];
        &&& m.len() <= min_len(b0) ==> r == Ok::<usize, BufferTooSmallError>(m.len() as usize) && final(self.buffer)@ =~= m + b0.subrange(m.len() as int, min_len(b0))
        &&& m.len() > min_len(b0) ==> r == Err::<usize, BufferTooSmallError>(BufferTooSmallError((m.len() - min_len(b0)) as usize))
    }
insert body_start
    proof { reveal(MessageFormatter::holds); reveal(MessageFormatter::writes); }

## common::core::msg::format::MessageFormatter::add_char
requires
  - focus_c09() || old(self).cursor < usize::MAX
panics focus_c09() && old(self).cursor == usize::MAX
ensures
  - old(self).writes(final(self), seq![c])
  - final(self).remaining_arguments == old(self).remaining_arguments
  - final(self).cursor == old(self).cursor + 1
insert body_start
    proof { reveal(MessageFormatter::writes); }

## common::core::msg::format::MessageFormatter::encode
requires
  - size == arg.enc().len()
  - focus_c09() || old(self).cursor + size <= usize::MAX
panics focus_c09() && old(self).cursor + size > usize::MAX
ensures
  - old(self).writes(final(self), arg.enc())
  - final(self).remaining_arguments == old(self).remaining_arguments
  - final(self).cursor == old(self).cursor + arg.enc().len()
insert body_start
    proof { reveal(MessageFormatter::writes); }

## common::core::msg::format::crop_buffer_to_max_msglen
ensures
  - r@ =~= old(buf)@.take(min_len(old(buf)@))
  - final(buf)@ =~= final(r)@ + old(buf)@.skip(min_len(old(buf)@))
