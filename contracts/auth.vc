# src/server/auth.rs

## server::auth::ClientIdentity::new
requires
  - id.wf()
ensures
  - [C21,C15,C17] r.wf()
  - [C21,C15,C17] r.id.text() == id.text()
  - [C21,C15,C17] r.stdin_screen_id is None && r.stdout_screen_id is None && r.stderr_screen_id is None

## server::auth::ClientIdentity
ghost
    impl ClientIdentity {
        pub open spec fn wf(&self) -> bool { crate::vident::client_id_ok(self.id.text()) }
        /// what the identity reports: client ID, then the screen IDs for stdin, stdout, stderr
        pub open spec fn info(&self) -> IdInfo {
            IdInfo { id: self.id.text(), stdin: opt_text(self.stdin_screen_id), stdout: opt_text(self.stdout_screen_id), stderr: opt_text(self.stderr_screen_id) }
        }
    }

## server::auth::extra
ghost
    use vstd::prelude::*;
    pub struct IdInfo { pub id: Seq<u8>, pub stdin: Option<Seq<u8>>, pub stdout: Option<Seq<u8>>, pub stderr: Option<Seq<u8>> }
    pub open spec fn opt_text(s: Option<String>) -> Option<Seq<u8>> { match s { Some(x) => Some(vstd::utf8::encode_utf8(x@)), None => None } }
    pub open spec fn opt_bytes(s: Option<&str>) -> Option<Seq<u8>> { match s { Some(x) => Some(x.spec_bytes()), None => None } }

## server::auth::ClientIdentity::with_{X} for X=stdin,stdout,stderr
ensures
  - r.info() == (IdInfo { {X}: Some(screen_id.spec_bytes()), ..self.info() })
  - self.wf() ==> r.wf()

## server::auth::ClientIdentity::client_id
ensures
  - r.text() == self.info().id
  - self.wf() ==> r.wf()

## server::auth::ClientIdentity::{X}_screen_id for X=stdin,stdout,stderr
ensures
  - opt_bytes(r) == self.info().{X}
rewrite
    | $s | $s . as_ref ( ) ==> | $s: &String | -> (vp_t: &str) ensures vp_t@ == $s@ { $s.as_ref() }

## server::auth::ClientCredentials::generate
ensures
  - drawn_since(old(vp_g)@, final(vp_g)@)
  - secret_since(r.secret@, old(vp_g)@, final(vp_g)@)
insert body_start
    proof { lemma_all_drawn(); }
## server::auth::ScreenCredentials::generate
ensures
  - drawn_since(old(vp_g)@, final(vp_g)@)
  - secrets_since(r.stdin_secret@, r.stdout_secret@, old(vp_g)@, final(vp_g)@)
insert body_start
    proof { lemma_all_drawn(); }
## server::auth::generate_secret
ensures
  - drawn_since(old(vp_g)@, final(vp_g)@)
  - secret_since(r@, old(vp_g)@, final(vp_g)@)
insert body_start
    proof { lemma_all_drawn(); }

## server::auth::ClientCredentials::secret
ensures
  - r@ == self.secret@
## server::auth::ScreenCredentials::stdin_secret
ensures
  - r@ == self.stdin_secret@
## server::auth::ScreenCredentials::stdout_secret
ensures
  - r@ == self.stdout_secret@

## server::auth::ClientSelector
ghost
    impl<'a> ClientSelector<'a> {
        pub open spec fn wf(&self) -> bool { match *self { ClientSelector::StrictlyBelow(c) => c.wf(), ClientSelector::AtOrBelow(c) => c.wf() } }
        /// the client IDs that are selected
        pub open spec fn sel(&self, id: Seq<u8>) -> bool {
            match *self {
                ClientSelector::StrictlyBelow(c) => crate::vcid::is_pre(c.text(), id) && id != c.text(),
                ClientSelector::AtOrBelow(c) => crate::vcid::is_pre(c.text(), id),
            }
        }
    }

## server::auth::ClientSelector::contains
ensures
  - r == self.sel(other.text())

## server::auth::cid2bytes
ensures
  - r@ == cid.text()

## server::auth::ScreenIdentity
ghost
    impl ScreenIdentity { pub open spec fn text(&self) -> Seq<u8> { vstd::utf8::encode_utf8(self.id@) } }
    // derived equality compares the IDs
    impl vstd::std_specs::cmp::PartialEqSpecImpl for ScreenIdentity {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &ScreenIdentity) -> bool { self.id@ == o.id@ }
    }

## server::auth::ScreenIdentity::new
ensures
  - r.text() == id.spec_bytes()
  - r.id@ == id@
## server::auth::ScreenIdentity::screen_id
ensures
  - r.spec_bytes() == self.text()
  - r@ == self.id@
