# codecs: src/common/core/decode_argument.rs

## common::core::decode_argument::DecodeArgument
ghost
    /// is r the right answer for the argument arg?
    spec fn decodes(arg: Seq<u8>, r: Option<Self>) -> bool;

## common::core::decode_argument::DecodeArgument::decode_argument
ensures
  - Self::decodes(arg@, r)

## common::core::decode_argument::<bool as DecodeArgument>
ghost
    open spec fn decodes(arg: Seq<u8>, r: Option<Self>) -> bool {
        r == (if arg == seq![116u8] { Some(true) } else if arg == seq![102u8] { Some(false) } else { None })
    }

## common::core::decode_argument::<bool as DecodeArgument>::decode_argument
insert body_start
    proof { assert([116u8]@ =~= seq![116u8]); assert([102u8]@ =~= seq![102u8]); }

## common::core::decode_argument::<&[u8] as DecodeArgument>
ghost
    open spec fn decodes(arg: Seq<u8>, r: Option<Self>) -> bool { r is Some && r->0@ == arg }

## common::core::decode_argument::<&str as DecodeArgument>
ghost
    open spec fn decodes(arg: Seq<u8>, r: Option<Self>) -> bool {
        match r { Some(s) => s.spec_bytes() == arg, None => !vstd::utf8::valid_utf8(arg) }
    }

## common::core::decode_argument::<&crate::vpath::Path as DecodeArgument>
ghost
    open spec fn decodes(arg: Seq<u8>, r: Option<Self>) -> bool { r is Some && path_bytes(r->0) == arg }

## common::core::decode_argument::<Option as DecodeArgument>
ghost
    open spec fn decodes(arg: Seq<u8>, r: Option<Self>) -> bool {
        if arg.len() == 0 { r == Some(None::<T>) }
        else { match r { Some(x) => x is Some && T::decodes(arg, x), None => T::decodes(arg, None) } }
    }

## common::core::decode_argument::<{T} as DecodeArgument> for T=i8,u8,i16,u16,i32,u32,i64,u64,i128,u128,isize,usize
ghost
    open spec fn decodes(arg: Seq<u8>, r: Option<Self>) -> bool {
        match r { Some(v) => int_text(v as int) == arg, None => forall|v: {T}| int_text(v as int) != arg }
    }

## common::core::decode_argument::<{T} as DecodeArgument>::decode_argument for T=i8,u8,i16,u16,i32,u32,i64,u64,i128,u128,isize,usize
insert body_start
    proof {
        assert([48u8]@ =~= seq![48u8]);
        if arg@.len() == 1 && arg@[0] == 48 { assert(arg@ =~= seq![48u8]); }
        if arg@.len() == 0 || arg@[0] == 43 || (arg@[0] == 48 && arg@.len() != 1) || (arg@[0] == 45 && arg@.len() > 1 && arg@[1] == 48) {
            lemma_not_canonical(arg@);
        } else {
            lemma_canonical(arg@, {T}::MIN as int, {T}::MAX as int);
            assert forall|v: {T}| int_text(v as int) == arg@ implies vstd::utf8::valid_utf8(arg@) by { lemma_int_text_ascii(v as int); lemma_ascii_valid(arg@); }
        }
    }

## common::core::decode_argument::<ClientID as DecodeArgument>
ghost
    open spec fn decodes(arg: Seq<u8>, r: Option<Self>) -> bool { crate::common::core::ClientID::parses(arg, r) }

## common::core::decode_argument::<Identifier as DecodeArgument>
ghost
    open spec fn decodes(arg: Seq<u8>, r: Option<Self>) -> bool { crate::common::core::Identifier::parses(arg, r) }

## common::core::decode_argument::<ModuleIdentifier as DecodeArgument>
ghost
    open spec fn decodes(arg: Seq<u8>, r: Option<Self>) -> bool { crate::common::core::ModuleIdentifier::parses(arg, r) }

## common::core::decode_argument::<ModuleVersion as DecodeArgument>
ghost
    open spec fn decodes(arg: Seq<u8>, r: Option<Self>) -> bool { crate::common::core::ModuleVersion::parses(arg, r) }

## common::core::decode_argument::<ScopedIdentifier as DecodeArgument>
ghost
    open spec fn decodes(arg: Seq<u8>, r: Option<Self>) -> bool { crate::common::core::ScopedIdentifier::parses(arg, r) }

## common::core::decode_argument::<MessageType as DecodeArgument>
ghost
    open spec fn decodes(arg: Seq<u8>, r: Option<Self>) -> bool { crate::common::core::MessageType::parses(arg, r) }

## common::core::decode_argument::<{T} as DecodeArgument>::decode_argument for T=ClientID,Identifier,ModuleIdentifier,ModuleVersion,ScopedIdentifier,MessageType
insert body_start
    proof { lemma_grammar_utf8(arg@); }
