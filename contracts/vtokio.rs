// Stand-ins and specification vocabulary for src/server/tokio.
use vstd::prelude::*;
verus! {
/// bytes::BytesMut, of which only what it shares with Vec<u8> is used: len, truncate and, as a slice, indexing
pub type BytesMut = Vec<u8>;

/// std::collections::HashMap
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: core::marker::PhantomData<K>, v: core::marker::PhantomData<V> }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r {
            None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@,
            Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { None => !self@.contains_key(*k), Some(v) => self@.contains_key(*k) && *v == self@[*k] }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool)
        ensures r == self@.contains_key(*k)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures self@.dom().finite(), r == self@.dom().len()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures self@.dom().finite(), r == (self@.dom().len() == 0)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k), match r { None => !old(self)@.contains_key(*k), Some(v) => old(self)@.contains_key(*k) && v == old(self)@[*k] },
    { unimplemented!() }
}
/// the keys of a map, in whatever order (stands for the order in which its entries are visited)
#[verifier::external_body]
pub fn keys<V>(m: &HashMap<u64, V>) -> (r: Vec<u64>)
    ensures forall|i: int| 0 <= i < r@.len() ==> m@.contains_key(#[trigger] r@[i]), forall|k: u64| #[trigger] m@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i] == k,
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> #[trigger] r@[i] != #[trigger] r@[j],
{ unimplemented!() }
/// Arc<tokio::sync::Notify>, with the number of times it was used
#[verifier::external_body] pub struct Notify { x: usize }
impl Notify {
    pub uninterp spec fn wakes(&self) -> int;
    /// which one it is
    pub uninterp spec fn chan(&self) -> int;
    #[verifier::external_body] pub fn new() -> Self { unimplemented!() }
    #[verifier::external_body] pub fn notify_one(&mut self)
        ensures final(self).wakes() == old(self).wakes() + 1, final(self).chan() == old(self).chan(),
    { unimplemented!() }
}
impl Clone for Notify {
    #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.chan() == self.chan(), r.wakes() == self.wakes() { unimplemented!() }
}

/// marks the place until which the guard of a lock is held
pub fn held<T>(g: &mut T) ensures *final(g) == *old(g) {}
/// stands for v.iter().all(f)
pub fn all<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: bool)
    requires forall|x: &T| #[trigger] call_requires(f, (x,)),
    ensures r ==> forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (&#[trigger] v@[i],), true),
        !r ==> exists|i: int| 0 <= i < v@.len() && #[trigger] call_ensures(f, (&v@[i],), false),
{
    let mut k: usize = 0;
    while k < v.len()
        invariant forall|x: &T| #[trigger] call_requires(f, (x,)), k <= v@.len(),
            forall|i: int| 0 <= i < k ==> #[trigger] call_ensures(f, (&v@[i],), true),
        decreases v@.len() - k,
    {
        if !f(&v[k]) { return false; }
        k += 1;
    }
    true
}
/// stands for v.iter().any(f)
pub fn any<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: bool)
    requires forall|x: &T| #[trigger] call_requires(f, (x,)),
    ensures r ==> exists|i: int| 0 <= i < v@.len() && #[trigger] call_ensures(f, (&v@[i],), true),
        !r ==> forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (&#[trigger] v@[i],), false),
{
    let mut k: usize = 0;
    while k < v.len()
        invariant forall|x: &T| #[trigger] call_requires(f, (x,)), k <= v@.len(),
            forall|i: int| 0 <= i < k ==> #[trigger] call_ensures(f, (&v@[i],), false),
        decreases v@.len() - k,
    {
        if f(&v[k]) { return true; }
        k += 1;
    }
    false
}
/// stands for v.iter_mut().find(f)
pub fn find_mut<T, F: Fn(&T) -> bool>(v: &mut Vec<T>, f: F) -> (r: Option<&mut T>)
    requires forall|x: &T| #[trigger] call_requires(f, (x,)),
    ensures match r {
        None => final(v)@ == old(v)@ && forall|i: int| 0 <= i < old(v)@.len() ==> call_ensures(f, (&#[trigger] old(v)@[i],), false),
        Some(b) => exists|i: int| 0 <= i < old(v)@.len() && #[trigger] old(v)@[i] == *b && final(v)@ == old(v)@.update(i, *final(b)) && call_ensures(f, (&*b,), true)
            && forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] old(v)@[j],), false),
    }
{
    let mut k: usize = 0;
    while k < v.len()
        invariant forall|x: &T| #[trigger] call_requires(f, (x,)), k <= v@.len(), v@ == old(v)@,
            forall|i: int| 0 <= i < k ==> #[trigger] call_ensures(f, (&old(v)@[i],), false),
        decreases v@.len() - k,
    {
        if f(&v[k]) {
            return Some(&mut v[k]);
        }
        k += 1;
    }
    None
}
/// v.iter_mut().filter(f)
pub struct FilterMut<'a, T, F> { pub v: &'a mut Vec<T>, pub f: F }
/// stands for v.iter_mut().filter(f)
pub fn filter_mut<'a, T, F: Fn(&T) -> bool>(v: &'a mut Vec<T>, f: F) -> (r: FilterMut<'a, T, F>)
    ensures *r.v == *old(v), r.f == f, *final(v) == *final(r.v),
{ FilterMut { v, f } }
impl<'a, T, F: Fn(&T) -> bool> FilterMut<'a, T, F> {
    /// stands for v.iter_mut().filter(f).last()
    pub fn last(self) -> (r: Option<&'a mut T>)
        requires forall|x: &T| #[trigger] call_requires(self.f, (x,)),
        ensures match r {
            None => *final(self.v) == *old(self.v) && forall|i: int| 0 <= i < old(self.v)@.len() ==> call_ensures(self.f, (&#[trigger] old(self.v)@[i],), false),
            Some(b) => exists|i: int| 0 <= i < old(self.v)@.len() && #[trigger] old(self.v)@[i] == *b && final(self.v)@ == old(self.v)@.update(i, *final(b)) && call_ensures(self.f, (&*b,), true)
                && forall|j: int| i < j < old(self.v)@.len() ==> call_ensures(self.f, (&#[trigger] old(self.v)@[j],), false),
        }
    {
        match last_index(&*self.v, &self.f) { Some(k) => Some(&mut self.v[k]), None => None }
    }
}
fn last_index<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: &F) -> (r: Option<usize>)
    requires forall|x: &T| #[trigger] call_requires(*f, (x,)),
    ensures match r {
        None => forall|i: int| 0 <= i < v@.len() ==> #[trigger] call_ensures(*f, (&v@[i],), false),
        Some(k) => k < v@.len() && call_ensures(*f, (&v@[k as int],), true) && forall|j: int| k < j < v@.len() ==> #[trigger] call_ensures(*f, (&v@[j],), false),
    }
{
    let mut k: usize = v.len();
    while k > 0
        invariant forall|x: &T| #[trigger] call_requires(*f, (x,)), k <= v@.len(),
            forall|i: int| k <= i < v@.len() ==> #[trigger] call_ensures(*f, (&v@[i],), false),
        decreases k,
    {
        k -= 1;
        if f(&v[k]) { return Some(k); }
    }
    None
}
}
