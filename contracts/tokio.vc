# src/server/tokio: the buffers between the sockets and the connections

## server::tokio::receiver::use crate::server::tokioasmy
drop used by the asynchronous job only
## server::tokio::receiver::use futures::future::{AbortRegistration,Abortable}
drop used by the asynchronous job only
## server::tokio::receiver::use std::sync::Arc
drop used by the asynchronous job only
## server::tokio::receiver::use tokio::io::AsyncReadExt
drop used by the asynchronous job only
## server::tokio::receiver::spawn_receiver
attr #[verifier::exec_allows_no_decreases_clause]
requires
  - !old(vp_h)@.locked && pool_ok(*old(vp_pool), *old(vp_tx), *old(vp_bc), old(vp_h)@) && calm(old(vp_pool).conns@)
  - old(vp_j)@ == fresh_job(conn_id) && conn_id < old(vp_pool).next_connection_id
ensures
  - !final(vp_h)@.locked && pool_ok(*final(vp_pool), *final(vp_tx), *final(vp_bc), final(vp_h)@) && calm(final(vp_pool).conns@)
  - !final(vp_pool).conns@.contains_key(conn_id)
  - final(vp_j)@.told == if final(vp_j)@.failed { 1int } else { 0int }
loop 1
invariant_except_break
  - !vp_h@.locked && pool_ok(*vp_pool, *vp_tx, *vp_bc, vp_h@) && calm(vp_pool.conns@) && conn_id < vp_pool.next_connection_id
  - vp_j@.id == conn_id && !vp_j@.over && !vp_j@.failed && vp_j@.told == 0
  - 0 <= vp_j@.done <= vp_j@.got.len() && buf@ == vp_j@.got.skip(vp_j@.done)
  - vp_j@.seen == vp_j@.got.len() || !vp_pool.conns@.contains_key(conn_id)
loop_ensures
  - !vp_h@.locked && pool_ok(*vp_pool, *vp_tx, *vp_bc, vp_h@) && calm(vp_pool.conns@)
  - !vp_pool.conns@.contains_key(conn_id)
  - vp_j@.told == if vp_j@.failed { 1int } else { 0int }

## server::tokio::receiver::<BytesMut as ReceiveBuffer>
ghost
    open spec fn bytes(&self) -> Seq<u8> { self@ }
## server::tokio::receiver::<BytesMut as ReceiveBuffer>::discard
loop 1
invariant
  - consumed <= self@.len() && self@.len() == old(self)@.len()
  - forall|i: int| 0 <= i < idx - consumed ==> #[trigger] self@[i] == old(self)@[i + consumed]
  - forall|i: int| idx - consumed <= i < self@.len() ==> #[trigger] self@[i] == old(self)@[i]
insert body_end
    proof { assert(self@ =~= old(self)@.skip(consumed as int)); }

## server::tokio::transmitter::use crate::server::tokioasmy
drop used by the asynchronous job only
## server::tokio::transmitter::use futures::future::{AbortRegistration,Abortable}
drop used by the asynchronous job only
## server::tokio::transmitter::use std::sync::Arc
drop used by the asynchronous job only
## server::tokio::transmitter::use tokio::io::AsyncWriteExt
drop used by the asynchronous job only
## server::tokio::transmitter::use tokio::sync::Notify
drop used by the asynchronous job only
## server::tokio::transmitter::spawn_transmitter
attr #[verifier::exec_allows_no_decreases_clause]
requires
  - !old(vp_h)@.locked && pool_ok(*old(vp_pool), *old(vp_tx), *old(vp_bc), old(vp_h)@) && calm(old(vp_pool).conns@)
  - old(vp_j)@ == fresh_job(conn_id) && conn_id < old(vp_pool).next_connection_id
ensures
  - !final(vp_h)@.locked && pool_ok(*final(vp_pool), *final(vp_tx), *final(vp_bc), final(vp_h)@) && calm(final(vp_pool).conns@)
  - !final(vp_pool).conns@.contains_key(conn_id)
  - final(vp_j)@.told == if final(vp_j)@.failed { 1int } else { 0int }
loop 1
invariant_except_break
  - !vp_h@.locked && pool_ok(*vp_pool, *vp_tx, *vp_bc, vp_h@) && calm(vp_pool.conns@) && conn_id < vp_pool.next_connection_id
  - vp_j@.id == conn_id && !vp_j@.failed && vp_j@.told == 0 && vp_j@.seen == vp_j@.got.len()
  - vp_j@.sent == vp_j@.taken && vp_j@.idle
loop_ensures
  - !vp_h@.locked && pool_ok(*vp_pool, *vp_tx, *vp_bc, vp_h@) && calm(vp_pool.conns@)
  - !vp_pool.conns@.contains_key(conn_id)
  - vp_j@.told == if vp_j@.failed { 1int } else { 0int }
loop 2
invariant
  - !vp_h@.locked && pool_ok(*vp_pool, *vp_tx, *vp_bc, vp_h@) && calm(vp_pool.conns@) && conn_id < vp_pool.next_connection_id
  - vp_j@.id == conn_id && !vp_j@.failed && vp_j@.told == 0 && vp_j@.seen == vp_j@.got.len()
  - vp_j@.sent == vp_j@.taken
loop_ensures
  - vp_j@.idle

## server::tokio::transmitter::SendBuffer
ghost
    impl SendBuffer {
        pub open spec fn wf(&self) -> bool { self.filled <= self.buf@.len() }
        /// the bytes that are queued
        pub open spec fn data(&self) -> Seq<u8> { self.buf@.take(self.filled as int) }
        pub open spec fn room(&self) -> nat { (self.buf@.len() - self.filled) as nat }
        pub open spec fn filled_len_spec(&self) -> usize { self.filled }
    }
    /// what `action` does to the bytes `a` and answers
    #[verifier::prophetic] pub open spec fn acts<E, F: FnOnce(&mut [u8]) -> Result<usize, E>>(action: F, a: Seq<u8>, b: Seq<u8>, r: Result<usize, E>) -> bool {
        exists|c: &mut [u8]| #[trigger] call_ensures(action, (c,), r) && c@ == a && final(c)@ == b
    }
    /// a buffer of this size takes any message
    pub open spec fn empty_buffer(b: SendBuffer) -> bool { b.filled == 0 && b.buf@.len() >= 1024 }
## server::tokio::transmitter::<SendBuffer as Default>::default
ensures
  - r.wf() && r.data().len() == 0 && r.room() >= 1024
## server::tokio::transmitter::SendBuffer::fill_if_ok
requires
  - old(self).wf()
  - forall|c: &mut [u8]| #[trigger] call_requires(action, (c,))
ensures
  - final(self).wf() && final(self).buf@.len() == old(self).buf@.len()
  - match r {
        Err(e) => final(self).data() == old(self).data() && exists|b: Seq<u8>, q: Result<usize, E>| #[trigger] acts(action, old(self).buf@.skip(old(self).filled as int), b, q) && q is Err && q->Err_0 == e,
        Ok(_) => exists|b: Seq<u8>, n: usize| #[trigger] acts(action, old(self).buf@.skip(old(self).filled as int), b, Ok(n)) && b.len() == old(self).room()
            && final(self).data() == old(self).data() + b.take(if n <= b.len() { n as int } else { b.len() as int }),
    }
insert body_start
    let ghost vp_a = self.buf@.skip(self.filled as int); let ghost vp_d = self.data(); let ghost vp_f = self.filled as int; let ghost vp_x = action;
rewrite
    action ( $(a) ) ==> { let vp_r = action($a); proof { let b = self.buf@.skip(vp_f); assert(self.buf@.take(vp_f) =~= vp_d); assert(acts(vp_x, vp_a, b, vp_r)); if vp_r is Ok { assert(acts(vp_x, vp_a, b, Ok(vp_r->Ok_0))); } assert forall|m: int| vp_f <= m <= self.buf@.len() implies #[trigger] self.buf@.take(m) == vp_d + b.take(m - vp_f) by { assert(self.buf@.take(m) =~= vp_d + b.take(m - vp_f)); } } vp_r }
## server::tokio::transmitter::SendBuffer::fill_until_full
requires
  - old(self).wf()
ensures
  - final(self).wf() && final(self).buf@.len() == old(self).buf@.len()
  - ({ let n = if input@.len() <= old(self).room() { input@.len() as int } else { old(self).room() as int };
      final(self).data() == old(self).data() + input@.take(n) && r@ == input@.skip(n) })
## server::tokio::transmitter::SendBuffer::filled
requires
  - self.wf()
ensures
  - r@ == self.data()
## server::tokio::transmitter::SendBuffer::filled_len
ensures
  - r == self.filled
## server::tokio::transmitter::SendBuffer::clear
ensures
  - final(self).wf() && final(self).data().len() == 0 && final(self).buf == old(self).buf && final(self).filled == 0

# ---------------------------------------------------------------- the queues
## server::tokio::dispatch::use futures::future::{AbortHandle,AbortRegistration,Abortable,Aborted}
drop stand-ins below
## server::tokio::dispatch::use std::collections::HashMap
drop crate::vtokio::HashMap stands for it
## server::tokio::dispatch::use std::sync::{Arc,Mutex,RwLock,RwLockWriteGuard}
drop locks are replaced by exclusive access
## server::tokio::dispatch::use tokio::sync::Notify
drop crate::vtokio::Notify stands for it
## server::tokio::dispatch::InnerDispatch::new
drop makes the locks
## server::tokio::dispatch::InnerDispatch::dispatch
external makes a handle of itself
## server::tokio::dispatch::InnerDispatch::create_connection_object
requires
  - !old(vp_h)@.locked && pool_ok(*old(vp_pool), *old(vp_tx), *old(vp_bc), old(vp_h)@) && calm(old(vp_pool).conns@)
  - old(vp_pool).next_connection_id < u64::MAX
ensures
  - !final(vp_h)@.locked && pool_ok(*final(vp_pool), *final(vp_tx), *final(vp_bc), final(vp_h)@) && calm(final(vp_pool).conns@)
  - [C22] final(vp_h)@.checked
  - [C24] r.0 == old(vp_pool).next_connection_id && !old(vp_pool).conns@.contains_key(r.0)
  - [C24] final(vp_pool).next_connection_id == r.0 + 1
  - [C24] carried_new(old(vp_pool).conns@, old(vp_h)@, final(vp_pool).conns@, final(vp_h)@, r.0, r.1.job(), r.2.job())
  - final(vp_tx)@.contains_key(r.0) ==> final(vp_tx)@[r.0].notify.chan() == r.3.chan()
  - forall|k: u64| #[trigger] old(vp_tx)@.contains_key(k) && final(vp_tx)@.contains_key(k) ==> final(vp_tx)@[k].notify.chan() == old(vp_tx)@[k].notify.chan()
## server::tokio::dispatch::InnerDispatch::connection_mut
requires
  - !old(vp_h)@.locked
ensures
  - r.guard is Some && r.conn_id == conn_id && r.inner == self
  - final(vp_h)@ == (Hist { locked: true, ..old(vp_h)@ })
## server::tokio::dispatch::InnerDispatch::do_maintenance_on_conn
requires
  - old(vp_h)@.locked
ensures
  - quiet(*old(vp_bc), old(vp_h)@, *final(vp_bc), final(vp_h)@)
  - final(pool).next_connection_id == old(pool).next_connection_id
  - if old(pool).conns@.contains_key(conn_id) && old(pool).conns@[conn_id].conn.state is Teardown {
        final(pool).conns@ == old(pool).conns@.remove(conn_id) && final(vp_tx)@ == old(vp_tx)@.remove(conn_id) && final(vp_h)@.closed == old(vp_h)@.closed + 1
            && final(vp_h)@.aborted == old(vp_h)@.aborted.insert(old(pool).conns@[conn_id].rx_abort.job()).insert(old(pool).conns@[conn_id].tx_abort.job())
    } else {
        final(pool).conns@ == old(pool).conns@ && final(vp_tx)@ == old(vp_tx)@ && final(vp_h)@ == old(vp_h)@ && *final(vp_bc) == *old(vp_bc)
    }
## server::tokio::dispatch::InnerDispatch::do_maintenance
attr #[verifier::exec_allows_no_decreases_clause]
requires
  - old(vp_h)@.locked && pool_ok(*old(pool), *old(vp_tx), *old(vp_bc), old(vp_h)@) && calm(old(pool).conns@)
ensures
  - final(vp_bc).q@.len() == 0
  - final(vp_h)@.locked && pool_ok(*final(pool), *final(vp_tx), *final(vp_bc), final(vp_h)@)
  - calm(final(pool).conns@)
  - carried(old(pool).conns@, old(vp_h)@, final(pool).conns@, final(vp_h)@)
  - final(pool).next_connection_id == old(pool).next_connection_id
  - same_chans(old(vp_tx)@, final(vp_tx)@)
loop 1
invariant
  - vp_h@.locked && pool_ok(*pool, *vp_tx, *vp_bc, vp_h@)
  - calm(pool.conns@)
  - carried(old(pool).conns@, old(vp_h)@, pool.conns@, vp_h@)
  - pool.next_connection_id == old(pool).next_connection_id
  - same_chans(old(vp_tx)@, vp_tx@)
loop_ensures
  - vp_bc.q@.len() == 0
insert before_loop 2
    let ghost vp_b = broadcasts@; let ghost vp_t = taken(*vp_bc, vp_h@) - vp_b.len();
loop 2
loop_name it
invariant
  - it.seq() == vp_b && forall|i: int| 0 <= i < vp_b.len() ==> (#[trigger] vp_b[i]).pos() == vp_t + i
  - vp_h@.locked && pool_ok_at(*pool, *vp_tx, *vp_bc, vp_h@, vp_t + it.index())
  - taken(*vp_bc, vp_h@) == vp_t + vp_b.len()
  - carried(old(pool).conns@, old(vp_h)@, pool.conns@, vp_h@)
  - pool.next_connection_id == old(pool).next_connection_id
  - same_chans(old(vp_tx)@, vp_tx@)
loop 3
invariant
  - forall|i: int| 0 <= i < vp_keys1@.len() ==> pool.conns@.contains_key(#[trigger] vp_keys1@[i])
  - forall|k: u64| #[trigger] pool.conns@.contains_key(k) ==> exists|i: int| 0 <= i < vp_keys1@.len() && #[trigger] vp_keys1@[i] == k
  - forall|i: int, j: int| 0 <= i < j < vp_keys1@.len() ==> #[trigger] vp_keys1@[i] != #[trigger] vp_keys1@[j]
  - vp_h@.locked && pool_base(*pool, *vp_tx, *vp_bc, vp_h@)
  - forall|i: int| vp_i1 <= i < vp_keys1@.len() ==> vp_h@.next[#[trigger] vp_keys1@[i]] == broadcast.pos()
  - forall|i: int| 0 <= i < vp_i1 ==> vp_h@.next[#[trigger] vp_keys1@[i]] == broadcast.pos() + 1
  - taken(*vp_bc, vp_h@) == vp_t + vp_b.len()
  - carried(old(pool).conns@, old(vp_h)@, pool.conns@, vp_h@)
  - pool.next_connection_id == old(pool).next_connection_id
  - same_chans(old(vp_tx)@, vp_tx@)
loop 4
loop_name it
invariant
  - vp_h@.locked && pool_ok(*pool, *vp_tx, *vp_bc, vp_h@)
  - forall|k: u64| #[trigger] pool.conns@.contains_key(k) && pool.conns@[k].conn.state is Teardown ==> exists|i: int| it.index() <= i < it.seq().len() && #[trigger] it.seq()[i] == k
  - carried(old(pool).conns@, old(vp_h)@, pool.conns@, vp_h@)
  - pool.next_connection_id == old(pool).next_connection_id
  - same_chans(old(vp_tx)@, vp_tx@)
## server::tokio::dispatch::InnerDispatch::run_broadcasts
attr #[verifier::exec_allows_no_decreases_clause]
requires
  - tail_ok(*old(vp_bc), old(vp_h)@)
  - !old(vp_h)@.locked ==> pool_ok(*old(vp_pool), *old(vp_tx), *old(vp_bc), old(vp_h)@) && calm(old(vp_pool).conns@)
ensures
  - final(vp_h)@.locked == old(vp_h)@.locked && tail_ok(*final(vp_bc), final(vp_h)@)
  - [C22] final(vp_h)@.checked
  - old(vp_h)@.locked ==> *final(vp_pool) == *old(vp_pool) && *final(vp_tx) == *old(vp_tx) && *final(vp_bc) == *old(vp_bc) && final(vp_h)@ == (Hist { checked: true, ..old(vp_h)@ })
  - !old(vp_h)@.locked ==> pool_ok(*final(vp_pool), *final(vp_tx), *final(vp_bc), final(vp_h)@) && calm(final(vp_pool).conns@)
  - !old(vp_h)@.locked ==> carried(old(vp_pool).conns@, old(vp_h)@, final(vp_pool).conns@, final(vp_h)@) && same_chans(old(vp_tx)@, final(vp_tx)@)
  - final(vp_pool).next_connection_id == old(vp_pool).next_connection_id
loop 1
invariant
  - tail_ok(*vp_bc, vp_h@)
  - vp_h@.locked == old(vp_h)@.locked
  - vp_h@.locked ==> *vp_pool == *old(vp_pool) && *vp_tx == *old(vp_tx) && *vp_bc == *old(vp_bc) && vp_h@ == (Hist { checked: vp_h@.checked, ..old(vp_h)@ })
  - !vp_h@.locked ==> pool_ok(*vp_pool, *vp_tx, *vp_bc, vp_h@) && calm(vp_pool.conns@)
  - !vp_h@.locked ==> carried(old(vp_pool).conns@, old(vp_h)@, vp_pool.conns@, vp_h@) && same_chans(old(vp_tx)@, vp_tx@)
  - vp_pool.next_connection_id == old(vp_pool).next_connection_id
loop_ensures
  - [C22] vp_h@.checked
insert loop_start 1
    proof { lemma_carried(); }
## server::tokio::dispatch::ConnectionRefMut::alive
rewrite
    $(x).map(|$v| &mut $w.conn) ==> match $x { Some($v) => Some(&mut $w.conn), None => None }
ensures
  - match r {
        None => !old(vp_pool).conns@.contains_key(old(self).conn_id) && final(vp_pool).conns@ == old(vp_pool).conns@ && final(vp_pool).next_connection_id == old(vp_pool).next_connection_id,
        Some(c) => old(vp_pool).conns@.contains_key(old(self).conn_id) && *c == old(vp_pool).conns@[old(self).conn_id].conn
            && final(vp_pool).conns@ == old(vp_pool).conns@.insert(old(self).conn_id, ConnectionPoolEntry { conn: *final(c), ..old(vp_pool).conns@[old(self).conn_id] })
            && final(vp_pool).next_connection_id == old(vp_pool).next_connection_id,
    }
  - *final(self) == *old(self)
## server::tokio::dispatch::<ConnectionRefMut as Drop>
attr inherent
## server::tokio::dispatch::<ConnectionRefMut as Drop>::drop
requires
  - old(self).guard is Some && old(vp_h)@.locked && pool_ok(*old(vp_pool), *old(vp_tx), *old(vp_bc), old(vp_h)@)
  - forall|k: u64| k != old(self).conn_id && #[trigger] old(vp_pool).conns@.contains_key(k) ==> !(old(vp_pool).conns@[k].conn.state is Teardown)
ensures
  - !final(vp_h)@.locked && pool_ok(*final(vp_pool), *final(vp_tx), *final(vp_bc), final(vp_h)@)
  - [C22] final(vp_h)@.checked
  - calm(final(vp_pool).conns@)
  - [C24] carried(old(vp_pool).conns@, old(vp_h)@, final(vp_pool).conns@, final(vp_h)@)
  - [C24] old(vp_pool).conns@.contains_key(old(self).conn_id) && old(vp_pool).conns@[old(self).conn_id].conn.state is Teardown ==> !final(vp_pool).conns@.contains_key(old(self).conn_id)
  - final(vp_pool).next_connection_id == old(vp_pool).next_connection_id && same_chans(old(vp_tx)@, final(vp_tx)@)
## server::tokio::dispatch::Dispatch::new
drop makes the locks
## server::tokio::dispatch::Dispatch::run_listener
drop asynchronous
## server::tokio::dispatch::Dispatch::shutdown
drop ends the asynchronous job that accepts connections
## server::tokio::dispatch::Dispatch::application
ensures
  - *r == self.0.app
## server::tokio::dispatch::Dispatch::enqueue_broadcast
requires
  - tail_ok(*old(vp_bc), old(vp_h)@)
  - !old(vp_h)@.locked ==> pool_ok(*old(vp_pool), *old(vp_tx), *old(vp_bc), old(vp_h)@) && calm(old(vp_pool).conns@)
ensures
  - final(vp_h)@.locked == old(vp_h)@.locked && tail_ok(*final(vp_bc), final(vp_h)@)
  - [C22] final(vp_h)@.checked
  - final(vp_h)@.n > old(vp_h)@.n
  - old(vp_h)@.locked ==> *final(vp_pool) == *old(vp_pool) && *final(vp_tx) == *old(vp_tx) && final(vp_h)@.next == old(vp_h)@.next && final(vp_h)@.closed == old(vp_h)@.closed
        && final(vp_h)@.n == old(vp_h)@.n + 1 && final(vp_bc).q@.len() == old(vp_bc).q@.len() + 1
  - old(vp_h)@.locked ==> forall|i: int| 0 <= i < old(vp_bc).q@.len() ==> final(vp_bc).q@[i] == #[trigger] old(vp_bc).q@[i]
  - !old(vp_h)@.locked ==> pool_ok(*final(vp_pool), *final(vp_tx), *final(vp_bc), final(vp_h)@) && calm(final(vp_pool).conns@)
  - !old(vp_h)@.locked ==> carried(old(vp_pool).conns@, old(vp_h)@, final(vp_pool).conns@, final(vp_h)@) && same_chans(old(vp_tx)@, final(vp_tx)@)
  - final(vp_pool).next_connection_id == old(vp_pool).next_connection_id
## server::tokio::dispatch::extra
ghost
    use vstd::prelude::*;
    use crate::vmsg::*;
    use crate::server::tokio::SendBuffer;
    pub struct InnerDispatch { pub app: crate::server::App, pub path: SocketPath }
    /// PathBuf
    #[verifier::external_body] pub struct SocketPath { x: usize }
    impl SocketPath { pub uninterp spec fn view(&self) -> Seq<u8>; }
    pub struct Dispatch(pub InnerDispatch);
    // ------------------------------------------------------------ the pool of connections and the queue of broadcasts
    /// What has happened so far: `n` broadcasts were enqueued (each knows its position in that order); `next[k]`: the
    /// connection k executes this one next; notifications about closed connections; jobs that were aborted;
    /// connections that were in teardown after a broadcast; whether this task holds the lock of the pool; whether, since it
    /// last released it or enqueued something, it has seen the queue empty or the lock taken by somebody else.
    pub ghost struct Hist { pub n: int, pub next: Map<u64, int>, pub closed: int, pub aborted: Set<int>, pub torn: Set<u64>, pub locked: bool, pub checked: bool }
    /// RwLockWriteGuard<ConnectionPool>
    #[verifier::external_body] pub struct Guard { x: usize }
    /// stands for pool.write().unwrap(): the lock is not reentrant
    #[verifier::external_body] pub fn lock(h: &mut Ghost<Hist>) -> (r: Guard)
        requires !old(h)@.locked,
        ensures final(h)@ == (Hist { locked: true, ..old(h)@ }),
    { unimplemented!() }
    #[verifier::external_body] pub fn try_lock(h: &mut Ghost<Hist>) -> (r: Result<Guard, ()>)
        ensures match r { Ok(_) => !old(h)@.locked && final(h)@ == (Hist { locked: true, ..old(h)@ }), Err(_) => final(h)@ == (Hist { checked: true, ..old(h)@ }) }
    { unimplemented!() }
    /// where a guard is dropped: the pool is as others may expect it
    #[verifier::external_body] pub fn release(g: Guard, pool: &ConnectionPool, tx: &crate::vtokio::HashMap<u64, TxConnector>, bc: &BcQueue, h: &mut Ghost<Hist>)
        requires old(h)@.locked, pool_ok(*pool, *tx, *bc, old(h)@), calm(pool.conns@),
        ensures final(h)@ == (Hist { locked: false, checked: false, ..old(h)@ }),
    { unimplemented!() }
    /// stands for pool.conns.insert(id, entry): from now on, the connection has to execute what is in the queue
    #[verifier::external_body] pub fn pool_insert(pool: &mut ConnectionPool, id: u64, entry: ConnectionPoolEntry, bc: &BcQueue, h: &mut Ghost<Hist>) -> (r: Option<ConnectionPoolEntry>)
        requires old(h)@.locked, !old(pool).conns@.contains_key(id), entry.conn.state is Handshake,
        ensures final(pool).conns@ == old(pool).conns@.insert(id, entry), old(pool).conns@.dom().finite() ==> final(pool).conns@.dom().len() == old(pool).conns@.dom().len() + 1, final(pool).next_connection_id == old(pool).next_connection_id,
            final(h)@ == (Hist { next: old(h)@.next.insert(id, taken(*bc, old(h)@)), ..old(h)@ }),
    { unimplemented!() }
    /// Box<dyn Fn(&mut Connection)>
    #[verifier::external_body] pub struct Broadcast { x: usize }
    impl Broadcast {
        pub uninterp spec fn pos(&self) -> int;
        /// Runs it, which may change the connection, queue messages and enqueue further broadcasts (which cannot be executed at
        /// once, since the lock is taken). Each connection has to execute all broadcasts, in order, each once.
        #[verifier::external_body] pub fn run(&self, c: &mut crate::server::Connection, tx: &mut crate::vtokio::HashMap<u64, TxConnector>, bc: &mut BcQueue, h: &mut Ghost<Hist>)
            requires old(h)@.locked, queues_ok(old(tx)@), old(h)@.next[old(c).id] == self.pos(), tail_ok(*old(bc), old(h)@),
            ensures final(c).id == old(c).id, queues_ok(final(tx)@), same_chans(old(tx)@, final(tx)@),
                forall|k: u64| #[trigger] final(tx)@.contains_key(k) == old(tx)@.contains_key(k),
                quiet(*old(bc), (Hist { next: old(h)@.next.insert(old(c).id, self.pos() + 1), torn: if final(c).state is Teardown { old(h)@.torn.insert(old(c).id) } else { old(h)@.torn }, ..old(h)@ }), *final(bc), final(h)@),
                final(h)@.closed == old(h)@.closed, final(h)@.aborted == old(h)@.aborted,
        { unimplemented!() }
    }
    pub struct BcQueue { pub q: Vec<Broadcast> }
    impl BcQueue {
        #[verifier::external_body] pub fn push(&mut self, b: Broadcast, h: &mut Ghost<Hist>)
            ensures final(h)@ == (Hist { n: old(h)@.n + 1, checked: false, ..old(h)@ }), exists|x: Broadcast| final(self).q@ == #[trigger] old(self).q@.push(x) && x.pos() == old(h)@.n,
        { unimplemented!() }
        #[verifier::external_body] pub fn is_empty(&self, h: &mut Ghost<Hist>) -> (r: bool)
            ensures r == (self.q@.len() == 0), final(h)@ == (Hist { checked: old(h)@.checked || r, ..old(h)@ }),
        { unimplemented!() }
    }
    /// AbortHandle, AbortRegistration
    #[verifier::external_body] pub struct AbortHandle { x: usize }
    #[verifier::external_body] pub struct AbortRegistration { x: usize }
    impl AbortHandle {
        /// the job that it aborts
        pub uninterp spec fn job(&self) -> int;
        #[verifier::external_body] pub fn new_pair() -> (r: (AbortHandle, AbortRegistration)) ensures r.0.job() == r.1.job() { unimplemented!() }
        #[verifier::external_body] pub fn abort(&self, h: &mut Ghost<Hist>)
            ensures final(h)@ == (Hist { aborted: old(h)@.aborted.insert(self.job()), ..old(h)@ }),
        { unimplemented!() }
    }
    impl AbortRegistration { pub uninterp spec fn job(&self) -> int; }
    /// stands for app.notify(n) while the lock is taken: the application may enqueue broadcasts
    #[verifier::external_body] pub fn tell(app: &crate::server::App, n: &server::Notification, bc: &mut BcQueue, h: &mut Ghost<Hist>)
        ensures quiet(*old(bc), old(h)@, *final(bc), final(h)@), final(h)@.closed == old(h)@.closed + if n is ConnectionClosed { 1int } else { 0int }, final(h)@.aborted == old(h)@.aborted,
    { unimplemented!() }
    /// stands for m.iter().map(|(_, entry)| entry.conn.id()).collect()
    #[verifier::external_body] pub fn conn_ids(m: &crate::vtokio::HashMap<u64, ConnectionPoolEntry>) -> (r: Vec<u64>)
        ensures forall|k: u64| #[trigger] m@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i] == m@[k].conn.id,
    { unimplemented!() }
    /// how many broadcasts were taken out of the queue so far
    pub open spec fn taken(bc: BcQueue, h: Hist) -> int { h.n - bc.q@.len() }
    /// the queue holds the last ones
    pub open spec fn tail_ok(bc: BcQueue, h: Hist) -> bool { forall|i: int| 0 <= i < bc.q@.len() ==> (#[trigger] bc.q@[i]).pos() == taken(bc, h) + i }
    /// nothing happens, except that broadcasts may be enqueued (and that jobs are aborted or connections closed)
    pub open spec fn quiet(b0: BcQueue, h0: Hist, b1: BcQueue, h1: Hist) -> bool {
        &&& h1.n >= h0.n && h1.next == h0.next && h1.torn == h0.torn && h1.locked == h0.locked
        &&& b1.q@.len() == b0.q@.len() + (h1.n - h0.n) && (tail_ok(b0, h0) ==> tail_ok(b1, h1))
    }
    pub open spec fn same_chans(t0: Queues, t1: Queues) -> bool { forall|k: u64| #[trigger] t1.contains_key(k) && t0.contains_key(k) ==> t1[k].notify.chan() == t0[k].notify.chan() }
    pub open spec fn pool_base(p: ConnectionPool, tx: crate::vtokio::HashMap<u64, TxConnector>, bc: BcQueue, h: Hist) -> bool {
        &&& p.conns@.dom().finite() && queues_ok(tx@) && tail_ok(bc, h)
        &&& forall|k: u64| #[trigger] p.conns@.contains_key(k) ==> p.conns@[k].conn.id == k && k < p.next_connection_id
        &&& forall|k: u64| #![trigger tx@.contains_key(k)] #![trigger p.conns@.contains_key(k)] tx@.contains_key(k) <==> p.conns@.contains_key(k)
    }
    /// every connection is in the pool under its own ID and has a queue; it has executed the broadcasts before `t`
    pub open spec fn pool_ok_at(p: ConnectionPool, tx: crate::vtokio::HashMap<u64, TxConnector>, bc: BcQueue, h: Hist, t: int) -> bool {
        pool_base(p, tx, bc, h) && forall|k: u64| #[trigger] p.conns@.contains_key(k) ==> h.next[k] == t
    }
    /// .. and all that were taken out of the queue
    pub open spec fn pool_ok(p: ConnectionPool, tx: crate::vtokio::HashMap<u64, TxConnector>, bc: BcQueue, h: Hist) -> bool { pool_ok_at(p, tx, bc, h, taken(bc, h)) }
    /// no connection is in teardown
    pub open spec fn calm(c: Map<u64, ConnectionPoolEntry>) -> bool { forall|k: u64| #[trigger] c.contains_key(k) ==> !(c[k].conn.state is Teardown) }
    /// the connections that have left the pool were in teardown, their jobs were aborted and the application was told once for each; no connection came
    pub open spec fn carried(c0: Map<u64, ConnectionPoolEntry>, h0: Hist, c1: Map<u64, ConnectionPoolEntry>, h1: Hist) -> bool {
        &&& h1.n >= h0.n && h1.closed - h0.closed == c0.dom().len() - c1.dom().len()
        &&& h0.aborted.subset_of(h1.aborted) && h0.torn.subset_of(h1.torn)
        &&& forall|k: u64| #[trigger] c1.contains_key(k) ==> c0.contains_key(k) && c1[k].rx_abort == c0[k].rx_abort && c1[k].tx_abort == c0[k].tx_abort && (c1[k].conn.state is Teardown ==> c0[k].conn.state is Teardown || h1.torn.contains(k))
        &&& forall|k: u64| #![trigger c0.contains_key(k)] #![trigger c1.contains_key(k)] c0.contains_key(k) && !c1.contains_key(k) ==> h1.aborted.contains(c0[k].rx_abort.job()) && h1.aborted.contains(c0[k].tx_abort.job()) && (c0[k].conn.state is Teardown || h1.torn.contains(k))
    }
    pub proof fn lemma_carried()
        ensures forall|c0: Map<u64, ConnectionPoolEntry>, h0: Hist, c1: Map<u64, ConnectionPoolEntry>, h1: Hist, c2: Map<u64, ConnectionPoolEntry>, h2: Hist|
            #[trigger] carried(c0, h0, c1, h1) && #[trigger] carried(c1, h1, c2, h2) ==> carried(c0, h0, c2, h2),
    {
        assert forall|c0: Map<u64, ConnectionPoolEntry>, h0: Hist, c1: Map<u64, ConnectionPoolEntry>, h1: Hist, c2: Map<u64, ConnectionPoolEntry>, h2: Hist|
            #[trigger] carried(c0, h0, c1, h1) && #[trigger] carried(c1, h1, c2, h2) implies carried(c0, h0, c2, h2) by {
            assert forall|k: u64| #[trigger] c0.contains_key(k) && !c2.contains_key(k) implies h2.aborted.contains(c0[k].rx_abort.job()) && h2.aborted.contains(c0[k].tx_abort.job()) && (c0[k].conn.state is Teardown || h2.torn.contains(k)) by {
                if c1.contains_key(k) {} else {}
            }
        }
    }
    /// .. and one did come, with these two jobs
    pub open spec fn carried_new(c0: Map<u64, ConnectionPoolEntry>, h0: Hist, c1: Map<u64, ConnectionPoolEntry>, h1: Hist, id: u64, rx: int, tx: int) -> bool {
        &&& h1.n >= h0.n && h1.closed - h0.closed == c0.dom().len() + 1 - c1.dom().len()
        &&& h0.aborted.subset_of(h1.aborted) && h0.torn.subset_of(h1.torn)
        &&& forall|k: u64| k != id && #[trigger] c1.contains_key(k) ==> c0.contains_key(k) && c1[k].rx_abort == c0[k].rx_abort && c1[k].tx_abort == c0[k].tx_abort && (c1[k].conn.state is Teardown ==> c0[k].conn.state is Teardown || h1.torn.contains(k))
        &&& forall|k: u64| #![trigger c0.contains_key(k)] #![trigger c1.contains_key(k)] c0.contains_key(k) && !c1.contains_key(k) ==> h1.aborted.contains(c0[k].rx_abort.job()) && h1.aborted.contains(c0[k].tx_abort.job()) && (c0[k].conn.state is Teardown || h1.torn.contains(k))
        &&& c1.contains_key(id) ==> c1[id].rx_abort.job() == rx && c1[id].tx_abort.job() == tx && (c1[id].conn.state is Teardown ==> h1.torn.contains(id))
        &&& !c1.contains_key(id) ==> h1.aborted.contains(rx) && h1.aborted.contains(tx) && h1.torn.contains(id)
    }
    pub type Queues = Map<crate::server::DispConnectionID, TxConnector>;
    /// everything that waits for the transmitter, in the order in which it will be sent
    pub open spec fn out(b: Seq<Box<SendBuffer>>) -> Seq<u8>
        decreases b.len(),
    { if b.len() == 0 { Seq::empty() } else { out(b.drop_last()) + b.last().data() } }
    pub open spec fn in_order(b: Seq<Box<SendBuffer>>) -> bool {
        &&& forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).wf()
        &&& forall|i: int, j: int| 0 <= i < j < b.len() && (#[trigger] b[j]).filled > 0 ==> (#[trigger] b[i]).filled > 0
    }
    pub open spec fn queues_ok(q: Queues) -> bool { forall|k: crate::server::DispConnectionID| #[trigger] q.contains_key(k) ==> in_order(q[k].bufs@) }
    /// the bytes `x` are queued for the connection `k`, behind what is there already, and for no other
    pub open spec fn queued(q0: Queues, k: crate::server::DispConnectionID, x: Seq<u8>, q1: Queues) -> bool {
        &&& queues_ok(q1) && forall|j: crate::server::DispConnectionID| #[trigger] q1.contains_key(j) == q0.contains_key(j)
        &&& forall|j: crate::server::DispConnectionID| j != k && #[trigger] q0.contains_key(j) ==> q1[j] == q0[j]
        &&& q0.contains_key(k) ==> out(q1[k].bufs@) =~= out(q0[k].bufs@) + x
    }
    pub proof fn lemma_out_update(b: Seq<Box<SendBuffer>>, i: int, n: Box<SendBuffer>, x: Seq<u8>)
        requires 0 <= i < b.len(), forall|j: int| i < j < b.len() ==> (#[trigger] b[j]).filled == 0, n.data() == b[i].data() + x,
        ensures out(b.update(i, n)) == out(b) + x,
        decreases b.len(),
    {
        let c = b.update(i, n);
        if i == b.len() - 1 { assert(c.drop_last() =~= b.drop_last()); assert(out(c) =~= out(b) + x); }
        else {
            assert(c.drop_last() =~= b.drop_last().update(i, n));
            lemma_out_update(b.drop_last(), i, n, x);
            assert(c.last() == b.last() && b.last() == b[b.len() - 1]);
            assert(b.last().data() =~= Seq::<u8>::empty());
            assert(out(c) =~= out(b) + x);
        }
    }
    pub proof fn lemma_out_push(b: Seq<Box<SendBuffer>>, n: Box<SendBuffer>)
        ensures out(b.push(n)) == out(b) + n.data(),
    { assert(b.push(n).drop_last() =~= b); }
    pub proof fn lemma_out_empty(b: Seq<Box<SendBuffer>>)
        requires forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).filled == 0,
        ensures out(b) == Seq::<u8>::empty(),
        decreases b.len(),
    {
        if b.len() > 0 {
            assert forall|i: int| 0 <= i < b.len() - 1 implies (#[trigger] b.drop_last()[i]).filled == 0 by { assert(b[i].filled == 0); }
            lemma_out_empty(b.drop_last());
            assert(b[b.len() - 1].filled == 0);
            assert(b.last().data() =~= Seq::<u8>::empty());
            assert(out(b) =~= Seq::<u8>::empty());
        }
    }
    pub proof fn lemma_out_remove(b: Seq<Box<SendBuffer>>)
        requires b.len() > 0,
        ensures out(b) == b[0].data() + out(b.remove(0)),
        decreases b.len(),
    {
        if b.len() == 1 { assert(b.remove(0) =~= Seq::empty()); assert(b.drop_last() =~= Seq::empty()); assert(out(b) =~= b[0].data() + out(b.remove(0))); }
        else {
            lemma_out_remove(b.drop_last());
            assert(b.remove(0).drop_last() =~= b.drop_last().remove(0));
            assert(b.remove(0).last() == b.last());
            assert(out(b) =~= b[0].data() + out(b.remove(0)));
        }
    }
    /// all of the above
    pub proof fn lemma_queue()
        ensures
            forall|b: Seq<Box<SendBuffer>>, i: int, n: Box<SendBuffer>, x: Seq<u8>|
                0 <= i < b.len() && (forall|j: int| i < j < b.len() ==> (#[trigger] b[j]).filled == 0) && n.data() == b[i].data() + x
                ==> #[trigger] out(b.update(i, n)) == out(b) + x || #[trigger] (b[i].data() + x) != n.data(),
            forall|b: Seq<Box<SendBuffer>>, n: Box<SendBuffer>| #[trigger] out(b.push(n)) == out(b) + n.data(),
            forall|b: Seq<Box<SendBuffer>>| (forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).filled == 0) ==> #[trigger] out(b) == Seq::<u8>::empty(),
            forall|b: Seq<Box<SendBuffer>>, n: Box<SendBuffer>| n.data().len() == 0 ==> #[trigger] out(b.push(n)) == out(b),
            forall|b: Seq<Box<SendBuffer>>, i: int, n: Box<SendBuffer>|
                0 <= i < b.len() && (forall|j: int| i < j < b.len() ==> (#[trigger] b[j]).filled == 0) && n.data() == b[i].data() ==> #[trigger] out(b.update(i, n)) == out(b),
            forall|b: Seq<Box<SendBuffer>>| b.len() > 0 ==> out(b) == b[0].data() + #[trigger] out(b.remove(0)),
            forall|a: Seq<u8>, b: Seq<u8>| #[trigger] (a + b).take(a.len() as int) == a,
            forall|b: Seq<Box<SendBuffer>>| (#[trigger] out(b)).len() == 0 ==> out(b) == Seq::<u8>::empty(),
            forall|a: Seq<u8>, x: Seq<u8>, n: int| 0 <= n <= x.len() ==> #[trigger] ((a + x.take(n)) + x.skip(n)) == a + x,
    {
        assert forall|a: Seq<u8>, x: Seq<u8>, n: int| 0 <= n <= x.len() implies #[trigger] ((a + x.take(n)) + x.skip(n)) == a + x by { assert((a + x.take(n)) + x.skip(n) =~= a + x); }
        assert forall|b: Seq<Box<SendBuffer>>| (#[trigger] out(b)).len() == 0 implies out(b) == Seq::<u8>::empty() by { assert(out(b) =~= Seq::empty()); }
        assert forall|b: Seq<Box<SendBuffer>>, i: int, n: Box<SendBuffer>, x: Seq<u8>|
            0 <= i < b.len() && (forall|j: int| i < j < b.len() ==> (#[trigger] b[j]).filled == 0) && n.data() == b[i].data() + x
            implies #[trigger] out(b.update(i, n)) == out(b) + x || #[trigger] (b[i].data() + x) != n.data() by { lemma_out_update(b, i, n, x); }
        assert forall|b: Seq<Box<SendBuffer>>, n: Box<SendBuffer>| #[trigger] out(b.push(n)) == out(b) + n.data() by { lemma_out_push(b, n); }
        assert forall|b: Seq<Box<SendBuffer>>| (forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).filled == 0) implies #[trigger] out(b) == Seq::<u8>::empty() by { lemma_out_empty(b); }
        assert forall|b: Seq<Box<SendBuffer>>, n: Box<SendBuffer>| n.data().len() == 0 implies #[trigger] out(b.push(n)) == out(b) by { lemma_out_push(b, n); assert(out(b) + n.data() =~= out(b)); }
        assert forall|b: Seq<Box<SendBuffer>>, i: int, n: Box<SendBuffer>|
            0 <= i < b.len() && (forall|j: int| i < j < b.len() ==> (#[trigger] b[j]).filled == 0) && n.data() == b[i].data() implies #[trigger] out(b.update(i, n)) == out(b) by {
            assert(n.data() =~= b[i].data() + Seq::<u8>::empty()); lemma_out_update(b, i, n, Seq::empty()); assert(out(b) + Seq::<u8>::empty() =~= out(b)); }
        assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] (a + b).take(a.len() as int) == a by { assert((a + b).take(a.len() as int) =~= a); }
        assert forall|b: Seq<Box<SendBuffer>>| b.len() > 0 implies out(b) == b[0].data() + #[trigger] out(b.remove(0)) by { lemma_out_remove(b); }
    }
## server::tokio::dispatch::InnerDispatch::swap_send_buffer
insert body_start
    proof { lemma_queue(); }
requires
  - queues_ok(old(vp_tx)@)
ensures
  - *final(conn) == *old(conn)
  - queues_ok(final(vp_tx)@) && same_chans(old(vp_tx)@, final(vp_tx)@)
  - forall|j: server::DispConnectionID| #[trigger] final(vp_tx)@.contains_key(j) == old(vp_tx)@.contains_key(j)
  - forall|j: server::DispConnectionID| j != old(conn).id && #[trigger] old(vp_tx)@.contains_key(j) ==> final(vp_tx)@[j] == old(vp_tx)@[j]
  - r is Some ==> old(vp_tx)@.contains_key(old(conn).id) && r->Some_0.wf() && r->Some_0.filled > 0
        && out(old(vp_tx)@[old(conn).id].bufs@) == r->Some_0.data() + out(final(vp_tx)@[old(conn).id].bufs@)
  - r is None && old(vp_tx)@.contains_key(old(conn).id) ==> out(final(vp_tx)@[old(conn).id].bufs@) == Seq::<u8>::empty()
  - r is None && old(vp_tx)@.contains_key(old(conn).id) ==> out(old(vp_tx)@[old(conn).id].bufs@) == Seq::<u8>::empty()
## server::tokio::dispatch::Dispatch::enqueue_message
insert body_start
    proof { lemma_queue(); }
requires
  - focus_c18() || old(conn).state is Handshake || old(conn).state is Msgio
  - queues_ok(old(vp_tx)@)
  - msg_text(msg.fields()).len() <= usize::MAX
panics focus_c18() && !(old(conn).state is Handshake || old(conn).state is Msgio)
ensures
  - queued(old(vp_tx)@, old(conn).id, if msg_text(msg.fields()).len() <= 1024 && (old(conn).state is Handshake || old(conn).state is Msgio) { msg_text(msg.fields()) } else { Seq::<u8>::empty() }, final(vp_tx)@)
  - msg_text(msg.fields()).len() <= 1024 || !old(vp_tx)@.contains_key(old(conn).id) ==> *final(conn) == *old(conn)
  - (old(conn).state is Handshake || old(conn).state is Msgio) && msg_text(msg.fields()).len() > 1024 && old(vp_tx)@.contains_key(old(conn).id) ==> *final(conn) == server::with_state(*old(conn), server::ConnectionState::Teardown)
  - (old(conn).state is Handshake || old(conn).state is Msgio) && msg_text(msg.fields()).len() <= 1024 && old(vp_tx)@.contains_key(old(conn).id) ==> final(vp_tx)@[old(conn).id].notify.wakes() > old(vp_tx)@[old(conn).id].notify.wakes()
## server::tokio::dispatch::Dispatch::enqueue_stdin
insert body_start
    proof { lemma_queue(); } let ghost vp_in = input@; let ghost vp_c = vp_tx@[conn.id];
insert loop_start 1
    proof { lemma_queue(); } let ghost vp_b = connector.bufs@; let ghost vp_i = input@;
insert loop_end 1
    proof { assert(out(connector.bufs@) + input@ =~= out(vp_b) + vp_i); }
requires
  - focus_c18() || old(conn).state is Stdin
  - queues_ok(old(vp_tx)@)
panics focus_c18() && !(old(conn).state is Stdin)
loop 1
invariant
  - in_order(connector.bufs@)
  - out(connector.bufs@) + input@ =~= out(vp_c.bufs@) + vp_in
  - connector.notify == vp_c.notify
loop_decreases
  - input@.len()
ensures
  - queued(old(vp_tx)@, old(conn).id, if old(conn).state is Stdin { input@ } else { Seq::<u8>::empty() }, final(vp_tx)@)
  - *final(conn) == *old(conn)
  - old(conn).state is Stdin && old(vp_tx)@.contains_key(old(conn).id) ==> final(vp_tx)@[old(conn).id].notify.wakes() > old(vp_tx)@[old(conn).id].notify.wakes()
