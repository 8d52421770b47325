# src/server/tokio/dispatch.rs: the listener (C28)

## server::tokio::dispatch::use futures::future::{AbortHandle,AbortRegistration,Abortable,Aborted}
drop stand-ins
## server::tokio::dispatch::Dispatch::vp_accept
attr #[verifier::exec_allows_no_decreases_clause]
requires
  - free(*old(vp_pool), *old(vp_tx), *old(vp_bc), old(vp_h)@) && settled(old(vp_l)@) && !old(vp_l)@.failed
  - ends(*old(vp_slot), vp_ar.job())
ensures
  - final(vp_l)@.failed ==> r is Err && !r->Err_0.stop()
  - free(*final(vp_pool), *final(vp_tx), *final(vp_bc), final(vp_h)@)
  - r is Ok || r->Err_0.stop() ==> final(vp_h)@.aborted.contains(vp_ar.job())
  - settled(final(vp_l)@) || untouched(final(vp_l)@)
  - final(vp_l)@.removed == old(vp_l)@.removed && *final(vp_slot) == *old(vp_slot)
loop 1
invariant
  - free(*vp_pool, *vp_tx, *vp_bc, vp_h@)
  - settled(vp_l@) && !vp_l@.failed && vp_l@.removed == old(vp_l)@.removed
  - ends(*vp_slot, vp_ar.job()) && *vp_slot == *old(vp_slot)
## server::tokio::dispatch::Dispatch::run_listener
requires
  - free(*old(vp_pool), *old(vp_tx), *old(vp_bc), old(vp_h)@) && old(vp_l)@.stream is None && untouched(old(vp_l)@) && !old(vp_l)@.failed
ensures
  - final(vp_l)@.failed ==> r is Err
  - free(*final(vp_pool), *final(vp_tx), *final(vp_bc), final(vp_h)@)
  - settled(final(vp_l)@) || untouched(final(vp_l)@)
  - r is Ok ==> was_asked(*final(vp_slot), final(vp_h)@)
  - r is Ok ==> forall|k: u64| !#[trigger] final(vp_pool).conns@.contains_key(k)
  - r is Ok ==> final(vp_l)@.removed.contains(self.0.path@)
  - r is Err ==> !r->Err_0.stop()
insert before_loop 1
    let ghost vp_p = vp_pool.conns@; let ghost vp_g = vp_h@; proof { lemma_dismantled(); }
loop 1
loop_name it
invariant
  - free(*vp_pool, *vp_tx, *vp_bc, vp_h@)
  - forall|k: u64| #[trigger] vp_pool.conns@.contains_key(k) ==> exists|i: int| it.index() <= i < it.seq().len() && #[trigger] it.seq()[i] == k
  - dismantled(vp_p, vp_g, vp_pool.conns@, vp_h@)
  - was_asked(*vp_slot, vp_h@) && !vp_l@.failed
  - settled(vp_l@) || untouched(vp_l@)
insert loop_start 1
    proof { lemma_dismantled(); }
## server::tokio::dispatch::Dispatch::shutdown
ensures
  - match *old(vp_slot) {
        Some(x) => final(vp_h)@ == (Hist { aborted: old(vp_h)@.aborted.insert(x.job()), ..old(vp_h)@ }),
        None => final(vp_h)@ == old(vp_h)@,
    }
