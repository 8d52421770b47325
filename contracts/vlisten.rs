// Stand-ins for what the listener of src/server/tokio uses.
use vstd::prelude::*;
use crate::server;
use crate::server::tokio::dispatch::*;
use crate::vjobs::*;
verus! {
/// a connection object that was just registered: its ID, its jobs, and what wakes the job that writes
pub ghost struct Fresh { pub id: u64, pub rx: int, pub tx: int, pub chan: int }
/// What the listener has done: the stream that was accepted last, the connection that was registered for it, whether its jobs were
/// started and how often the application was told; whether a connection could not be accepted; the socket files that were removed since a socket was opened there.
pub ghost struct Listen { pub stream: Option<int>, pub conn: Option<Fresh>, pub rx: bool, pub tx: bool, pub told: int, pub removed: Set<Seq<u8>>, pub failed: bool }
/// nothing was done yet about the stream that was accepted last
pub open spec fn untouched(l: Listen) -> bool { l.conn is None && !l.rx && !l.tx && l.told == 0 }
/// the stream that was accepted last (if any) is served completely
pub open spec fn settled(l: Listen) -> bool { (l.stream is None && untouched(l)) || (l.stream is Some && l.conn is Some && l.rx && l.tx && l.told == 1) }
/// the handle that shutdown() uses ends this job
pub open spec fn ends(slot: Option<AbortHandle>, job: int) -> bool { slot is Some && slot->Some_0.job() == job }
#[verifier::external_body] pub struct Listener { x: usize }
#[verifier::external_body] pub struct Stream { x: usize }
#[verifier::external_body] pub struct SocketAddr { x: usize }
pub struct Aborted;
impl Stream {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body] pub fn into_split(self) -> (r: (Reader, Writer)) ensures r.0.stream() == self.id(), r.1.stream() == self.id() { unimplemented!() }
}
impl Reader { pub uninterp spec fn stream(&self) -> int; }
impl Writer { pub uninterp spec fn stream(&self) -> int; }
impl IoError {
    /// not an error: the loop was told to stop
    pub uninterp spec fn stop(&self) -> bool;
}
impl Listener { pub uninterp spec fn path(&self) -> Seq<u8>; }
#[verifier::external_body] pub fn bind(p: &SocketPath, l: &mut Ghost<Listen>) -> (r: Result<Listener, IoError>)
    ensures match r { Ok(x) => x.path() == p@ && final(l)@ == (Listen { removed: old(l)@.removed.remove(p@), ..old(l)@ }), Err(e) => !e.stop() && final(l)@ == old(l)@ },
{ unimplemented!() }
#[verifier::external_body] pub fn close(x: Listener) { unimplemented!() }
#[verifier::external_body] pub fn remove_file(p: &SocketPath, l: &mut Ghost<Listen>) -> (r: Result<(), IoError>)
    ensures match r { Ok(_) => final(l)@ == (Listen { removed: old(l)@.removed.insert(p@), ..old(l)@ }), Err(e) => !e.stop() && final(l)@ == old(l)@ },
{ unimplemented!() }
/// At a wait, the loop may be told to stop, which shutdown() can do; no connection may be set up by half then.
#[verifier::external_body] pub fn stopped(ar: &AbortRegistration, slot: &mut Option<AbortHandle>, pool: &mut ConnectionPool, tx: &mut crate::vtokio::HashMap<u64, TxConnector>, bc: &mut BcQueue, h: &mut Ghost<Hist>, l: &mut Ghost<Listen>) -> (r: Option<IoError>)
    requires free(*old(pool), *old(tx), *old(bc), old(h)@), settled(old(l)@) || untouched(old(l)@), !old(l)@.failed, ends(*old(slot), ar.job()),
    ensures meanwhile(*old(pool), old(h)@, *final(pool), final(h)@), free(*final(pool), *final(tx), *final(bc), final(h)@), final(l)@ == old(l)@, *final(slot) == *old(slot),
        r is Some ==> r->Some_0.stop() && final(h)@.aborted.contains(ar.job()),
{ unimplemented!() }
/// Abortable::new(f, ar).await
pub fn abortable(r: Result<(), IoError>, ar: AbortRegistration) -> (q: Result<Result<(), IoError>, Aborted>)
    ensures match r { Ok(_) => q is Ok && q->Ok_0 is Ok, Err(e) => if e.stop() { q is Err } else { q == Ok::<Result<(), IoError>, Aborted>(Err(e)) } },
{ match r { Ok(_) => Ok(Ok(())), Err(e) => if is_stop(&e) { Err(Aborted) } else { Ok(Err(e)) } } }
#[verifier::external_body] fn is_stop(e: &IoError) -> (b: bool) ensures b == e.stop() { unimplemented!() }
impl Listener {
    /// stands for self.accept().await: the stream before is served; the IDs are not used up
    #[verifier::external_body] pub fn accept(&self, pool: &mut ConnectionPool, tx: &mut crate::vtokio::HashMap<u64, TxConnector>, bc: &mut BcQueue, h: &mut Ghost<Hist>, l: &mut Ghost<Listen>) -> (r: Result<(Stream, SocketAddr), IoError>)
        requires free(*old(pool), *old(tx), *old(bc), old(h)@), settled(old(l)@), !old(l)@.failed,
        ensures meanwhile(*old(pool), old(h)@, *final(pool), final(h)@), free(*final(pool), *final(tx), *final(bc), final(h)@), final(pool).next_connection_id < u64::MAX,
            final(l)@ == (Listen { stream: match r { Ok(x) => Some(x.0.id()), Err(_) => None }, conn: None, rx: false, tx: false, told: 0, failed: r is Err, ..old(l)@ }), r is Err ==> !r->Err_0.stop(),
    { unimplemented!() }
}
/// remembers what was registered for the stream
#[verifier::external_body] pub fn created(r: (u64, AbortRegistration, AbortRegistration, crate::vtokio::Notify), l: &mut Ghost<Listen>) -> (q: (u64, AbortRegistration, AbortRegistration, crate::vtokio::Notify))
    requires old(l)@.stream is Some, old(l)@.conn is None,
    ensures q == r, final(l)@ == (Listen { conn: Some(Fresh { id: r.0, rx: r.1.job(), tx: r.2.job(), chan: r.3.chan() }), ..old(l)@ }),
{ unimplemented!() }
/// stands for my::spawn_receiver(..): what the job requires (contracts/tokio.vc), and that it serves this stream under the ID, and can be ended through the entry, of the connection that was registered for it
#[verifier::external_body] pub fn start_receiver(d: &InnerDispatch, ar: AbortRegistration, id: u64, r: Reader, pool: &mut ConnectionPool, tx: &mut crate::vtokio::HashMap<u64, TxConnector>, bc: &mut BcQueue, h: &mut Ghost<Hist>, l: &mut Ghost<Listen>)
    requires free(*old(pool), *old(tx), *old(bc), old(h)@), id < old(pool).next_connection_id, !old(l)@.rx,
        old(l)@.stream == Some(r.stream()), old(l)@.conn is Some, id == old(l)@.conn->Some_0.id, ar.job() == old(l)@.conn->Some_0.rx,
    ensures meanwhile(*old(pool), old(h)@, *final(pool), final(h)@), free(*final(pool), *final(tx), *final(bc), final(h)@), final(l)@ == (Listen { rx: true, ..old(l)@ }),
{ unimplemented!() }
/// stands for my::spawn_transmitter(..)
#[verifier::external_body] pub fn start_transmitter(d: &InnerDispatch, ar: AbortRegistration, id: u64, w: Writer, notify: crate::vtokio::Notify, pool: &mut ConnectionPool, tx: &mut crate::vtokio::HashMap<u64, TxConnector>, bc: &mut BcQueue, h: &mut Ghost<Hist>, l: &mut Ghost<Listen>)
    requires free(*old(pool), *old(tx), *old(bc), old(h)@), id < old(pool).next_connection_id, !old(l)@.tx,
        old(l)@.stream == Some(w.stream()), old(l)@.conn is Some, id == old(l)@.conn->Some_0.id, ar.job() == old(l)@.conn->Some_0.tx, notify.chan() == old(l)@.conn->Some_0.chan,
    ensures meanwhile(*old(pool), old(h)@, *final(pool), final(h)@), free(*final(pool), *final(tx), *final(bc), final(h)@), final(l)@ == (Listen { tx: true, ..old(l)@ }),
{ unimplemented!() }
/// stands for app.notify(n)
#[verifier::external_body] pub fn announce(app: &crate::server::App, n: &server::Notification, pool: &mut ConnectionPool, tx: &mut crate::vtokio::HashMap<u64, TxConnector>, bc: &mut BcQueue, h: &mut Ghost<Hist>, l: &mut Ghost<Listen>)
    requires free(*old(pool), *old(tx), *old(bc), old(h)@), !(n is ConnectionClosed), n is ConnectionOpened ==> old(l)@.stream is Some && old(l)@.told == 0,
    ensures meanwhile(*old(pool), old(h)@, *final(pool), final(h)@), free(*final(pool), *final(tx), *final(bc), final(h)@),
        final(l)@ == (Listen { told: old(l)@.told + if n is ConnectionOpened { 1int } else { 0int }, ..old(l)@ }),
{ unimplemented!() }
/// shutdown() was called
pub open spec fn was_asked(slot: Option<AbortHandle>, h: Hist) -> bool { slot is Some && h.aborted.contains(slot->Some_0.job()) }
/// nobody else registers connections
pub open spec fn meanwhile(p0: ConnectionPool, h0: Hist, p1: ConnectionPool, h1: Hist) -> bool { p0.next_connection_id <= p1.next_connection_id && dismantled(p0.conns@, h0, p1.conns@, h1) }
/// of the connections c0, c1 are left; for each of the others, both jobs were told to stop and the application was told once
pub open spec fn dismantled(c0: Map<u64, ConnectionPoolEntry>, h0: Hist, c1: Map<u64, ConnectionPoolEntry>, h1: Hist) -> bool {
    &&& h1.closed - h0.closed == c0.dom().len() - c1.dom().len() && h0.aborted.subset_of(h1.aborted)
    &&& forall|k: u64| #[trigger] c1.contains_key(k) ==> c0.contains_key(k) && c1[k].rx_abort == c0[k].rx_abort && c1[k].tx_abort == c0[k].tx_abort
    &&& forall|k: u64| #![trigger c0.contains_key(k)] #![trigger c1.contains_key(k)] c0.contains_key(k) && !c1.contains_key(k) ==> h1.aborted.contains(c0[k].rx_abort.job()) && h1.aborted.contains(c0[k].tx_abort.job())
}
pub proof fn lemma_dismantled()
    ensures
        forall|c0: Map<u64, ConnectionPoolEntry>, h0: Hist, c1: Map<u64, ConnectionPoolEntry>, h1: Hist, c2: Map<u64, ConnectionPoolEntry>, h2: Hist|
            #[trigger] dismantled(c0, h0, c1, h1) && #[trigger] dismantled(c1, h1, c2, h2) ==> dismantled(c0, h0, c2, h2),
        forall|c0: Map<u64, ConnectionPoolEntry>, h0: Hist, c1: Map<u64, ConnectionPoolEntry>, h1: Hist| #[trigger] carried(c0, h0, c1, h1) ==> dismantled(c0, h0, c1, h1),
        forall|c: Map<u64, ConnectionPoolEntry>, k: u64, e: ConnectionPoolEntry| c.contains_key(k) ==> #[trigger] c.insert(k, e).dom() == c.dom(),
{
    assert forall|c0: Map<u64, ConnectionPoolEntry>, h0: Hist, c1: Map<u64, ConnectionPoolEntry>, h1: Hist, c2: Map<u64, ConnectionPoolEntry>, h2: Hist|
        #[trigger] dismantled(c0, h0, c1, h1) && #[trigger] dismantled(c1, h1, c2, h2) implies dismantled(c0, h0, c2, h2) by {
        assert forall|k: u64| #[trigger] c0.contains_key(k) && !c2.contains_key(k) implies h2.aborted.contains(c0[k].rx_abort.job()) && h2.aborted.contains(c0[k].tx_abort.job()) by { if c1.contains_key(k) {} else {} }
    }
    assert forall|c: Map<u64, ConnectionPoolEntry>, k: u64, e: ConnectionPoolEntry| c.contains_key(k) implies #[trigger] c.insert(k, e).dom() == c.dom() by { assert(c.insert(k, e).dom() =~= c.dom()); }
}
}
