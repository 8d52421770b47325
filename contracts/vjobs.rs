// Stand-ins for what the asynchronous jobs of src/server/tokio wait for, and what they have to know then.
use vstd::prelude::*;
use crate::server;
use crate::server::tokio::dispatch::*;
use crate::server::tokio::SendBuffer;
verus! {
// ------------------------------------------------------------ the jobs
/// What a job has done: the bytes that were read from the socket, how many of them the connection has consumed, and of how
/// many it has been told; whether the stream has ended, or the socket failed; how often the application was notified of a
/// failure; the bytes that were taken from the output queue, and those that were written; whether the queue was empty when it looked last.
pub ghost struct Job { pub id: u64, pub got: Seq<u8>, pub done: int, pub seen: int, pub over: bool, pub failed: bool, pub told: int, pub taken: Seq<u8>, pub sent: Seq<u8>, pub idle: bool }
pub open spec fn fresh_job(id: u64) -> Job { Job { id, got: Seq::empty(), done: 0, seen: 0, over: false, failed: false, told: 0, taken: Seq::empty(), sent: Seq::empty(), idle: true } }
#[verifier::external_body] pub struct IoError { x: usize }
/// OwnedReadHalf, OwnedWriteHalf
#[verifier::external_body] pub struct Reader { x: usize }
#[verifier::external_body] pub struct Writer { x: usize }
pub open spec fn free(pool: ConnectionPool, tx: crate::vtokio::HashMap<u64, TxConnector>, bc: BcQueue, h: Hist) -> bool { !h.locked && pool_ok(pool, tx, bc, h) && calm(pool.conns@) }
/// IDs are not used again
pub open spec fn later(p0: ConnectionPool, p1: ConnectionPool) -> bool { p0.next_connection_id <= p1.next_connection_id && forall|k: u64| #[trigger] p1.conns@.contains_key(k) && k < p0.next_connection_id ==> p0.conns@.contains_key(k) }
/// somebody else may have had the pool
#[verifier::external_body] pub fn others(pool: &mut ConnectionPool, tx: &mut crate::vtokio::HashMap<u64, TxConnector>, bc: &mut BcQueue, h: &mut Ghost<Hist>)
    requires free(*old(pool), *old(tx), *old(bc), old(h)@),
    ensures later(*old(pool), *final(pool)), free(*final(pool), *final(tx), *final(bc), final(h)@),
{ unimplemented!() }
impl Reader {
    /// stands for self.read_buf(buf).await: whatever was read before has been given to the connection (unless it is gone), and
    /// what the connection did not consume is still there
    #[verifier::external_body] pub fn read_buf(&mut self, buf: &mut crate::vtokio::BytesMut, pool: &mut ConnectionPool, tx: &mut crate::vtokio::HashMap<u64, TxConnector>, bc: &mut BcQueue, h: &mut Ghost<Hist>, j: &mut Ghost<Job>) -> (r: Result<usize, IoError>)
        requires free(*old(pool), *old(tx), *old(bc), old(h)@),
            !old(j)@.over && !old(j)@.failed,
            0 <= old(j)@.done <= old(j)@.got.len() && old(buf)@ == old(j)@.got.skip(old(j)@.done),
            old(j)@.seen == old(j)@.got.len() || !old(pool).conns@.contains_key(old(j)@.id),
        ensures later(*old(pool), *final(pool)), free(*final(pool), *final(tx), *final(bc), final(h)@),
            match r {
                Ok(n) => exists|x: Seq<u8>| x.len() == n && final(buf)@ == #[trigger] (old(buf)@ + x) && final(j)@ == (Job { got: old(j)@.got + x, over: n == 0, ..old(j)@ }) && final(buf)@ == final(j)@.got.skip(final(j)@.done),
                Err(_) => final(buf)@ == old(buf)@ && final(j)@ == (Job { over: true, failed: true, ..old(j)@ }),
            },
    { unimplemented!() }
}
/// what the handlers did to the rest of the world; they cannot change the identity of a connection, which is private
#[verifier::external_body] fn handlers_did(id: Ghost<u64>, c: &mut crate::server::Connection, tx: &mut crate::vtokio::HashMap<u64, TxConnector>, bc: &mut BcQueue, h: &mut Ghost<Hist>)
    requires old(h)@.locked, queues_ok(old(tx)@), tail_ok(*old(bc), old(h)@),
    ensures *final(c) == *old(c), final(c).id == id@, queues_ok(final(tx)@), same_chans(old(tx)@, final(tx)@),
        forall|k: u64| #[trigger] final(tx)@.contains_key(k) == old(tx)@.contains_key(k),
        quiet(*old(bc), old(h)@, *final(bc), final(h)@), final(h)@.closed == old(h)@.closed, final(h)@.aborted == old(h)@.aborted,
{ unimplemented!() }
/// stands for c.handle_incoming(buf): `buf` has to hold everything that the connection has not consumed yet
pub fn feed(c: &mut crate::server::Connection, buf: &mut crate::vtokio::BytesMut, tx: &mut crate::vtokio::HashMap<u64, TxConnector>, bc: &mut BcQueue, h: &mut Ghost<Hist>, j: &mut Ghost<Job>)
    requires old(h)@.locked, queues_ok(old(tx)@), tail_ok(*old(bc), old(h)@),
        old(c).id == old(j)@.id, 0 <= old(j)@.done <= old(j)@.got.len() && old(buf)@ == old(j)@.got.skip(old(j)@.done),
    ensures final(c).id == old(c).id, queues_ok(final(tx)@), same_chans(old(tx)@, final(tx)@),
        forall|k: u64| #[trigger] final(tx)@.contains_key(k) == old(tx)@.contains_key(k),
        quiet(*old(bc), old(h)@, *final(bc), final(h)@), final(h)@.closed == old(h)@.closed, final(h)@.aborted == old(h)@.aborted,
        old(j)@.done <= final(j)@.done <= old(j)@.got.len() && final(j)@ == (Job { done: final(j)@.done, seen: old(j)@.got.len() as int, ..old(j)@ }),
        final(buf)@ == final(j)@.got.skip(final(j)@.done),
{
    let ghost id = c.id; let ghost b0 = buf@; let ghost c0 = *c;
    c.handle_incoming(buf);
    handlers_did(Ghost(id), c, tx, bc, h);
    proof {
        crate::server::lemma_runs_with(c0, b0, *c, buf@);
            let ms = choose|ms: Seq<Seq<Seq<u8>>>| #[trigger] crate::server::runs_with(c0, b0, ms, *c, buf@);
            crate::server::lemma_framing(c0, b0, ms, *c, buf@);
        let k = choose|k: int| 0 <= k <= b0.len() && buf@ == #[trigger] b0.skip(k);
        assert(buf@ =~= j@.got.skip(j@.done + k));
        *j = Ghost(Job { done: j@.done + k, seen: j@.got.len() as int, ..j@ });
    }
}
/// stands for c.set_state(s): a job may only end the connection, at the end of the stream or when the socket failed
pub fn end(c: &mut crate::server::Connection, s: server::ConnectionState, j: &mut Ghost<Job>)
    requires old(c).id == old(j)@.id, old(j)@.over || old(j)@.failed, s is Teardown, old(j)@.seen == old(j)@.got.len(),
    ensures *final(c) == server::with_state(*old(c), server::ConnectionState::Teardown), *final(j) == *old(j),
{ c.set_state(s); }
/// stands for app.notify(n): the application may enqueue broadcasts, which may be executed at once
#[verifier::external_body] pub fn tell_free(app: &crate::server::App, n: &server::Notification, pool: &mut ConnectionPool, tx: &mut crate::vtokio::HashMap<u64, TxConnector>, bc: &mut BcQueue, h: &mut Ghost<Hist>, j: &mut Ghost<Job>)
    requires !old(h)@.locked ==> free(*old(pool), *old(tx), *old(bc), old(h)@),
    ensures later(*old(pool), *final(pool)), !old(h)@.locked ==> free(*final(pool), *final(tx), *final(bc), final(h)@),
        old(h)@.locked ==> *final(pool) == *old(pool) && *final(tx) == *old(tx) && quiet(*old(bc), old(h)@, *final(bc), final(h)@) && final(h)@.closed == old(h)@.closed && final(h)@.aborted == old(h)@.aborted,
        final(j)@ == (Job { told: old(j)@.told + if n is ConnectionIOError { 1int } else { 0int }, ..old(j)@ }),
{ unimplemented!() }
/// stands for dispatch.swap_send_buffer(conn, buf): what was taken before has been written
pub fn fetch(d: &InnerDispatch, c: &mut crate::server::Connection, buf: Option<Box<SendBuffer>>, tx: &mut crate::vtokio::HashMap<u64, TxConnector>, j: &mut Ghost<Job>) -> (r: Option<Box<SendBuffer>>)
    requires queues_ok(old(tx)@), old(c).id == old(j)@.id, old(j)@.sent == old(j)@.taken,
    ensures *final(c) == *old(c), queues_ok(final(tx)@), same_chans(old(tx)@, final(tx)@), forall|k: u64| #[trigger] final(tx)@.contains_key(k) == old(tx)@.contains_key(k),
        match r {
            Some(b) => b.wf() && b.filled > 0 && final(j)@ == (Job { taken: old(j)@.taken + b.data(), idle: false, ..old(j)@ }) && final(j)@.taken.take(final(j)@.taken.len() as int) == final(j)@.taken,
            None => final(j)@ == (Job { idle: true, ..old(j)@ }),
        },
{
    let r = d.swap_send_buffer(c, buf, tx);
    proof { *j = Ghost(if r is Some { Job { taken: j@.taken + r->Some_0.data(), idle: false, ..j@ } } else { Job { idle: true, ..j@ } }); assert(j@.taken.take(j@.taken.len() as int) =~= j@.taken); }
    r
}
impl Writer {
    /// stands for self.write_all(x).await: x is what comes next
    #[verifier::external_body] pub fn write_all(&mut self, x: &[u8], pool: &mut ConnectionPool, tx: &mut crate::vtokio::HashMap<u64, TxConnector>, bc: &mut BcQueue, h: &mut Ghost<Hist>, j: &mut Ghost<Job>) -> (r: Result<(), IoError>)
        requires free(*old(pool), *old(tx), *old(bc), old(h)@), !old(j)@.failed,
            old(j)@.sent.len() + x@.len() <= old(j)@.taken.len(), (old(j)@.sent + x@) == old(j)@.taken.take((old(j)@.sent.len() + x@.len()) as int),
        ensures later(*old(pool), *final(pool)), free(*final(pool), *final(tx), *final(bc), final(h)@),
            match r { Ok(_) => final(j)@ == (Job { sent: old(j)@.sent + x@, ..old(j)@ }), Err(_) => final(j)@ == (Job { failed: true, ..old(j)@ }) },
    { unimplemented!() }
}
impl crate::vtokio::Notify {
    /// stands for self.notified().await: nothing is left to write, as far as the job knows
    #[verifier::external_body] pub fn notified(&self, pool: &mut ConnectionPool, tx: &mut crate::vtokio::HashMap<u64, TxConnector>, bc: &mut BcQueue, h: &mut Ghost<Hist>, j: &mut Ghost<Job>)
        requires free(*old(pool), *old(tx), *old(bc), old(h)@), old(j)@.idle, old(j)@.sent == old(j)@.taken,
        ensures later(*old(pool), *final(pool)), free(*final(pool), *final(tx), *final(bc), final(h)@), final(j)@ == (Job { idle: false, ..old(j)@ }),
    { unimplemented!() }
}
}
