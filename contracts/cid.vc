# src/client/core/client_id.rs

## client::core::client_id::RelativeClientID
ghost
    impl<'a> RelativeClientID<'a> {
        pub open spec fn wf(&self) -> bool { self.base.wf() }
        pub open spec fn text(&self) -> Seq<u8> { self.base.text() + self.suffix.text() }
    }

## client::core::client_id::RelativeClientID::base
ensures
  - r == self.base

## client::core::client_id::RelativeClientID::suffix
ensures
  - r == self.suffix

## client::core::client_id::<RelativeClientID as EncodeArgument>
ghost
    open spec fn enc(&self) -> Seq<u8> { self.text() }

## client::core::client_id::ClientIDSuffix
ghost
    impl ClientIDSuffix {
        /// what is appended to the base
        pub open spec fn text(&self) -> Seq<u8> {
            match *self {
                ClientIDSuffix::Own => Seq::empty(),
                ClientIDSuffix::Local(i) => local_text(i as int),
                ClientIDSuffix::Job(i) => job_text(i as int),
                ClientIDSuffix::Child(i, j) => child_text(i as int, j as int),
            }
        }
    }
    /// C12: the result is a valid client ID that starts with the base, and equals it only for the own suffix
    pub proof fn lemma_derived_valid<'a>(r: RelativeClientID<'a>)
        requires r.wf(),
        ensures client_id_ok(r.text()), is_pre(r.base.text(), r.text()), r.text() == r.base.text() <==> r.suffix is Own,
    {
        match r.suffix {
            ClientIDSuffix::Own => { assert(r.text() =~= r.base.text()); }
            ClientIDSuffix::Local(i) => { lemma_cw(i as int); }
            ClientIDSuffix::Job(i) => { lemma_cw(i as int); }
            ClientIDSuffix::Child(i, j) => { lemma_cw(i as int); lemma_cw(j as int); }
        }
        if !(r.suffix is Own) { assert(r.text().len() > r.base.text().len()); }
    }
    /// C12: distinct suffixes give distinct IDs
    pub proof fn lemma_derived_inj<'a>(a: RelativeClientID<'a>, b: RelativeClientID<'a>)
        requires a.base == b.base, a.text() == b.text(),
        ensures a.suffix == b.suffix,
    {
        let n = a.base.text().len() as int;
        assert(a.suffix.text() =~= a.text().skip(n));
        assert(b.suffix.text() =~= b.text().skip(n));
        lemma_suffix_inj(a.suffix, b.suffix);
    }
    pub proof fn lemma_suffix_inj(a: ClientIDSuffix, b: ClientIDSuffix)
        requires a.text() == b.text(),
        ensures a == b,
    {
        match a {
            ClientIDSuffix::Own => { match b { ClientIDSuffix::Own => {}, ClientIDSuffix::Local(i) => { lemma_cw(i as int); }, ClientIDSuffix::Job(i) => { lemma_cw(i as int); }, ClientIDSuffix::Child(i, j) => { lemma_cw(i as int); } } }
            ClientIDSuffix::Local(k) => { lemma_cw(k as int); match b { ClientIDSuffix::Own => {}, ClientIDSuffix::Local(i) => { lemma_local_job_prefix_free(k as int, i as int); }, ClientIDSuffix::Job(i) => { lemma_local_job_prefix_free(k as int, i as int); }, ClientIDSuffix::Child(i, j) => { lemma_child_below(i as int, j as int, k as int); } } }
            ClientIDSuffix::Job(k) => { lemma_cw(k as int); match b { ClientIDSuffix::Own => {}, ClientIDSuffix::Local(i) => { lemma_local_job_prefix_free(k as int, i as int); }, ClientIDSuffix::Job(i) => { lemma_local_job_prefix_free(k as int, i as int); }, ClientIDSuffix::Child(i, j) => { lemma_child_below(i as int, j as int, k as int); } } }
            ClientIDSuffix::Child(k, l) => { lemma_cw(k as int); match b { ClientIDSuffix::Own => {}, ClientIDSuffix::Local(i) => { lemma_child_below(k as int, l as int, i as int); }, ClientIDSuffix::Job(i) => { lemma_child_below(k as int, l as int, i as int); }, ClientIDSuffix::Child(i, j) => { lemma_child_inj(i as int, j as int, k as int, l as int); } } }
        }
    }

## client::core::client_id::ClientIDSuffix::below
ensures
  - r.base == base && r.suffix == *self

## client::core::client_id::ClientIDSuffix::get_size
ensures
  - r == self.text().len()

## client::core::client_id::ClientIDSuffix::encode
requires
  - old(buf)@.len() == self.text().len()
ensures
  - final(buf)@ =~= self.text()

## client::core::client_id::get_size_for_number
ensures
  - r == cw(num as int).len()
  - r <= 0x4800000

## client::core::client_id::encode_number
requires
  - old(buf)@.len() == cw(num as int).len()
ensures
  - final(buf)@ =~= cw(num as int)
insert body_start
    let ghost i = num as int;
    proof { lemma_cw(i); }
loop 1
loop_name it
invariant
  - it.seq().len() == cw(i).len()
  - 0 <= i < 0x1_0000_0000
  - it.index() < cw(i).len() ==> num == i + 1 - 61 * it.index()
  - forall|k: int| 0 <= k < it.index() ==> *final(#[trigger] it.seq()[k]) == cw(i)[k]
