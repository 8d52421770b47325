# codecs: src/common/core/encode_argument.rs, decode_argument.rs

## common::core::encode_argument::EncodeArgument
ghost
    /// the bytes that this argument stands for
    spec fn enc(&self) -> Seq<u8>;

## common::core::encode_argument::EncodeArgument::get_size
ensures
  - r == self.enc().len()

## common::core::encode_argument::EncodeArgument::encode
requires
  - old(buf)@.len() == self.enc().len()
ensures
  - final(buf)@ =~= self.enc()

## common::core::encode_argument::EncodeArgument::encode_to_vector
drop convenience for documentation examples (allocates, then calls get_size and encode)

## common::core::encode_argument::EncodedArgument
ghost
    spec fn enc_text(&self) -> Seq<u8>;

## common::core::encode_argument::EncodedArgument::encoded
ensures
  - r@ == self.enc_text()

## common::core::encode_argument::<T as EncodeArgument>
ghost
    open spec fn enc(&self) -> Seq<u8> { self.enc_text() }

## common::core::encode_argument::<[u8] as EncodeArgument>
ghost
    open spec fn enc(&self) -> Seq<u8> { self@ }

## common::core::encode_argument::<str as EncodeArgument>
ghost
    open spec fn enc(&self) -> Seq<u8> { self.spec_bytes() }

## common::core::encode_argument::<Path as EncodedArgument>
ghost
    open spec fn enc_text(&self) -> Seq<u8> { path_bytes(self) }

## common::core::encode_argument::<bool as EncodeArgument>
ghost
    open spec fn enc(&self) -> Seq<u8> { if *self { seq![116u8] } else { seq![102u8] } }

## common::core::encode_argument::<Option as EncodeArgument>
ghost
    open spec fn enc(&self) -> Seq<u8> { match *self { None => Seq::empty(), Some(x) => x.enc() } }

## common::core::encode_argument::<{T} as EncodeArgument> for T=i8,u8,i16,u16,i32,u32,i64,u64,i128,u128,isize,usize
ghost
    open spec fn enc(&self) -> Seq<u8> { int_text(*self as int) }

## common::core::encode_argument::<{T} as EncodeArgument>::get_size for T=i8,u8,i16,u16,i32,u32,i64,u64,i128,u128,isize,usize;U=u32,u32,u32,u32,u32,u32,u64,u64,u128,u128,u64,u64
insert body_start
    proof { lemma_neg_{T}_{U}(*self); lemma_int_text(*self as int); lemma_dec_len_mono(mag_of(*self as int), 340282366920938463463374607431768211455); lemma_dec_max(); }
loop 1
invariant
  - 1 <= result
  - result - 1 + dec(val as nat).len() == dec(mag_of(*self as int)).len()
  - dec(mag_of(*self as int)).len() <= 39
loop_decreases
  - val
insert loop_start 1
    proof { lemma_dec(val as nat); lemma_dec(val as nat / 10); }
insert after_loop 1
    proof { lemma_dec(val as nat); }

## common::core::encode_argument::<{T} as EncodeArgument>::encode for T=i8,u8,i16,u16,i32,u32,i64,u64,i128,u128,isize,usize;U=u32,u32,u32,u32,u32,u32,u64,u64,u128,u128,u64,u64
insert body_start
    proof { lemma_neg_{T}_{U}(*self); lemma_int_text(*self as int); lemma_dec(mag_of(*self as int)); }
    let ghost text = int_text(*self as int);
    let ghost sg: int = if *self < 0 { 1 } else { 0 };
insert before_loop 1
    proof { assert forall|j: int| 0 <= j < dec(val as nat).len() implies #[trigger] dec(val as nat)[j] == text[sg + j] by {} }
loop 1
invariant
  - sg == 0 || sg == 1
  - idx + 1 == sg + dec(val as nat).len()
  - idx < buf@.len() == text.len()
  - forall|j: int| idx < j < buf@.len() ==> buf@[j] == text[j]
  - forall|j: int| 0 <= j < dec(val as nat).len() ==> #[trigger] dec(val as nat)[j] == text[sg + j]
loop_decreases
  - val
insert loop_start 1
    proof {
        lemma_dec(val as nat); lemma_dec(val as nat / 10);
        assert(dec(val as nat).last() == text[idx as int]);
        assert forall|j: int| 0 <= j < dec(val as nat / 10).len() implies #[trigger] dec(val as nat / 10)[j] == text[sg + j] by {
            assert(dec(val as nat)[j] == dec(val as nat / 10)[j]);
        }
    }
insert after_loop 1
    proof { lemma_dec(val as nat); assert(dec(val as nat)[0] == text[sg]); }
