# impl Display (src/common/core): what is printed

## common::core::identifiers::<ClientID as Display>
ghost
    open spec fn shown(&self) -> Seq<u8> { self.text() }
    open spec fn printable(&self) -> bool { true }
## common::core::identifiers::<ClientID as Display>::fmt

## common::core::identifiers::<Identifier as Display>
ghost
    open spec fn shown(&self) -> Seq<u8> { self.text() }
    open spec fn printable(&self) -> bool { true }
## common::core::identifiers::<Identifier as Display>::fmt

## common::core::identifiers::<ModuleIdentifier as Display>
ghost
    open spec fn shown(&self) -> Seq<u8> { self.text() }
    open spec fn printable(&self) -> bool { true }
## common::core::identifiers::<ModuleIdentifier as Display>::fmt

## common::core::identifiers::<ModuleVersion as Display>
ghost
    open spec fn shown(&self) -> Seq<u8> { self.text() }
    open spec fn printable(&self) -> bool { true }
## common::core::identifiers::<ModuleVersion as Display>::fmt
insert body_start
    let ghost f0 = f@;
    proof { assert(f@ + self.module.text() + seq![46u8] + dec(self.minor_version as nat) =~= f@ + self.text()); }

## common::core::identifiers::<ScopedIdentifier as Display>
ghost
    open spec fn shown(&self) -> Seq<u8> { self.text() }
    open spec fn printable(&self) -> bool { true }
## common::core::identifiers::<ScopedIdentifier as Display>::fmt

## common::core::identifiers::<MessageType as Display>
ghost
    open spec fn shown(&self) -> Seq<u8> { self.text() }
    open spec fn printable(&self) -> bool { true }
## common::core::identifiers::<MessageType as Display>::fmt

## common::core::msg::<Message as Display>
ghost
    open spec fn shown(&self) -> Seq<u8> { crate::vfmt::notation(self.ty(), self.args()) }
    open spec fn printable(&self) -> bool { self.wf() }
## common::core::msg::<Message as Display>::fmt
insert body_start
    let ghost f0 = f@;
insert before_loop 1
    proof { assert(f@ =~= f0 + seq![40u8] + self.ty()); lemma_tail(f@, f0, self.ty(), self.args()); }
loop 1
invariant_except_break
  - self.wf() && vp_it1.wf() && !f.broken()
  - f@ + (crate::vfmt::args_text(vp_it1.items()) + seq![41u8]) == f0 + self.shown()
loop_ensures
  - !f.broken() && f@ + seq![41u8] == f0 + self.shown()
loop_decreases
  - vp_it1.items().len()
insert loop_start 1
    let ghost l0 = vp_it1.items(); let ghost g0 = f@;
    proof { lemma_args_step(g0, l0); }
insert before_loop 2
    let ghost g1 = f@;
loop 2
loop_name it
invariant
  - !f.broken() && f@ == g1 + it.seq().take(it.index() as int)
  - it.seq() == crate::vfmt::esc_all(l0[0])
  - forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] < 128
insert loop_start 2
    proof { assert(it.seq().take(it.index() + 1) =~= it.seq().take(it.index() as int).push(it.seq()[it.index() as int])); }
insert after_loop 2
    proof {
        let e = crate::vfmt::esc_all(l0[0]);
        assert(e.take(e.len() as int) =~= e);
        assert(f@ == g1 + e);
        if l0[0].len() > 0 && crate::vfmt::all_plain(l0[0]) { crate::vfmt::lemma_plain(l0[0]); }
    }
insert loop_end 1
    proof {
        assert(vp_it1.items() == l0.skip(1));
        let rest = crate::vfmt::args_text(l0.skip(1)) + seq![41u8];
        if l0[0].len() > 0 && crate::vfmt::all_plain(l0[0]) { assert(f@ == g0 + seq![32u8] + l0[0]); }
        else { assert(f@ == g0 + seq![32u8, 34u8] + crate::vfmt::esc_all(l0[0]) + seq![34u8]); }
    }