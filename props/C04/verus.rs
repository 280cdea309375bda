use vstd::prelude::*;
use std::marker::PhantomData;
verus! {
type Rank = i32;

// ---- assumed contract of MpiWorld (the sending and receiving functions; under the executable contract) ----
// sent(r): all messages given to rank r so far; got(r): all messages taken from rank r so far
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct MpiWorld<T> { t: PhantomData<T> }
pub struct VxScope {}
#[verifier::external_body]
pub struct VxGuard { g: u8 }
impl<T> MpiWorld<T> {
    pub uninterp spec fn n(&self) -> int;
    pub uninterp spec fn me(&self) -> int;
    pub open spec fn other(&self, r: int) -> bool { 0 <= r < self.n() && r <= i32::MAX && r != self.me() }
    pub uninterp spec fn sent(&self, r: int) -> Seq<Seq<T>>;
    pub uninterp spec fn got(&self, r: int) -> Seq<Seq<T>>;
    pub open spec fn same_place(&self, o: &Self) -> bool { self.n() == o.n() && self.me() == o.me() }
    /// nothing but one more message to rank r
    pub open spec fn after_send(&self, o: &Self, r: int, m: Seq<T>) -> bool {
        &&& self.same_place(o)
        &&& self.sent(r) == o.sent(r).push(m)
        &&& forall|q: int| q != r ==> #[trigger] self.sent(q) == o.sent(q)
        &&& forall|q: int| #[trigger] self.got(q) == o.got(q)
    }
    pub open spec fn after_receive(&self, o: &Self, r: int, m: Seq<T>) -> bool {
        &&& self.same_place(o)
        &&& self.got(r) == o.got(r).push(m)
        &&& forall|q: int| q != r ==> #[trigger] self.got(q) == o.got(q)
        &&& forall|q: int| #[trigger] self.sent(q) == o.sent(q)
    }
    #[verifier::external_body]
    pub fn blocking_send_vec(&mut self, rank: Rank, data: &[T])
        requires old(self).other(rank as int)
        ensures final(self).after_send(old(self), rank as int, data@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn immediate_send_vec_wait_guard(&mut self, scope: VxScope, rank: Rank, data: &[T]) -> (r: Option<VxGuard>)
        requires old(self).other(rank as int)
        ensures final(self).after_send(old(self), rank as int, data@)
    { unimplemented!() }
    /// Waits for the message.  The precondition keeps a rank from waiting before it has sent its own
    /// messages of the round: with it no set of ranks can wait for each other.
    #[verifier::external_body]
    pub fn receive_vec(&mut self, rank: Rank) -> (r: Vec<T>)
        requires old(self).other(rank as int), forall|q: int| old(self).other(q) ==> #[trigger] old(self).sent(q).len() > old(self).got(rank as int).len()
        ensures final(self).after_receive(old(self), rank as int, r@)
    { unimplemented!() }
    /// proved in C03
    #[verifier::external_body]
    pub fn other_ranks(&self) -> (r: Vec<Rank>)
        ensures forall|q: i32| #[trigger] r@.contains(q) <==> self.other(q as int), forall|j: int, k: int| 0 <= j < k < r@.len() ==> r@[j] < r@[k]
    { unimplemented!() }
}

// ---- contract of DataByRank (C03): a map from rank to value ---------------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct DataByRank<T> { t: PhantomData<T> }
impl<T> DataByRank<T> {
    pub uninterp spec fn m(&self) -> Map<int, T>;
    #[verifier::external_body]
    pub fn from_communicator<S>(c: &MpiWorld<S>) -> (r: Self) ensures forall|q: int| #[trigger] r.m().dom().contains(q) <==> c.other(q) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, rank: Rank, t: T) requires rank >= 0 ensures final(self).m() == old(self).m().insert(rank as int, t) { unimplemented!() }
    /// `data[rank]`, `data[rank] = t`
    #[verifier::external_body]
    pub fn vx_at(&self, rank: Rank) -> (r: &T) requires self.m().dom().contains(rank as int) ensures *r == self.m()[rank as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_set(&mut self, rank: Rank, t: T) requires old(self).m().dom().contains(rank as int) ensures final(self).m() == old(self).m().insert(rank as int, t) { unimplemented!() }
}
/// `data.iter()`: every entry once, in ascending order of rank
#[verifier::external_body]
pub fn vx_entries<T>(d: &DataByRank<T>) -> (r: Vec<(Rank, &T)>)
    ensures
        forall|j: int| 0 <= j < r@.len() ==> d.m().dom().contains((#[trigger] r@[j]).0 as int) && *r@[j].1 == d.m()[r@[j].0 as int],
        forall|j: int, k: int| 0 <= j < k < r@.len() ==> (#[trigger] r@[j]).0 < (#[trigger] r@[k]).0,
        forall|q: int| d.m().dom().contains(q) ==> exists|j: int| 0 <= j < r@.len() && (#[trigger] r@[j]).0 == q,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_keep(v: &mut Vec<VxGuard>, g: Option<VxGuard>) { unimplemented!() }
/// debug_assert!
pub fn vx_check(b: bool) requires b { }

#[verifier::reject_recursive_types(T)]
//@ extract src/communication/exchange_communicator.rs :: struct ExchangeCommunicator
//@ end

/// what rank r is given in this exchange: its entry, or nothing
pub open spec fn message<T, U: VxAsRef<T>>(d: DataByRank<U>, r: int) -> Seq<T> { if d.m().dom().contains(r) { d.m()[r].sl() } else { Seq::empty() } }
/// AsRef<[T]> of std
pub trait VxAsRef<T> { spec fn sl(&self) -> Seq<T>; fn as_ref(&self) -> (r: &[T]) ensures r@ == self.sl(); }
impl<T> VxAsRef<T> for Vec<T> { open spec fn sl(&self) -> Seq<T> { self@ } fn as_ref(&self) -> &[T] { self.as_slice() } }
impl<'a, T> VxAsRef<T> for &'a [T] { open spec fn sl(&self) -> Seq<T> { self@ } fn as_ref(&self) -> &[T] { self } }
/// `ranks.iter().map(|rank| (*rank, data)).collect()`
#[verifier::external_body]
pub fn vx_same<'a, T>(ranks: Vec<Rank>, data: &'a [T]) -> (r: DataByRank<&'a [T]>)
    ensures forall|q: int| #[trigger] r.m().dom().contains(q) <==> (0 <= q <= i32::MAX && ranks@.contains(q as i32)), forall|q: int| r.m().dom().contains(q) ==> #[trigger] r.m()[q] == data
{ unimplemented!() }

impl<T> ExchangeCommunicator<T> {
    /// pending marks exactly the other ranks
    pub closed spec fn wf(&self) -> bool { forall|q: int| #[trigger] self.pending_data.m().dom().contains(q) <==> self.communicator.other(q) }
    pub closed spec fn pending(&self, r: int) -> bool { self.pending_data.m()[r] }
    /// between exchanges: nothing pending, as many messages sent to every rank as received from any
    pub closed spec fn idle(&self) -> bool {
        &&& self.wf()
        &&& forall|q: int| self.communicator.other(q) ==> !#[trigger] self.pending(q)
        &&& self.in_step()
    }
    /// for pending ranks one more message was sent than received
    pub closed spec fn in_step(&self) -> bool {
        forall|q: int, p: int| self.communicator.other(q) && self.communicator.other(p) ==> #[trigger] self.communicator.sent(q).len() == #[trigger] self.communicator.got(p).len() + if self.pending(q) { 1int } else { 0int }
    }

    //@ extract src/communication/exchange_communicator.rs :: impl<T> ExchangeCommunicator<T> where T: Equivalence :: fn blocking_send_vec
    //@ rewrite * `debug_assert!($e)` => `vx_check($e)`
    //@ rewrite * `self.pending_data[$r] = $e;` => `self.pending_data.vx_set($r, $e);`
    //@ rewrite * `self.pending_data[$r]` => `*self.pending_data.vx_at($r)`
    //@ rewrite 1 `, &data)` => `, data.as_slice())`
    //@ spec
        requires old(self).wf(), old(self).in_step(), old(self).communicator.other(rank as int), !old(self).pending(rank as int)
        ensures
            final(self).wf(), final(self).in_step(), final(self).pending(rank as int),
            final(self).communicator.after_send(&old(self).communicator, rank as int, data@),
            forall|q: int| q != rank ==> #[trigger] final(self).pending(q) == old(self).pending(q),
    //@ end

    //@ extract src/communication/exchange_communicator.rs :: impl<T> ExchangeCommunicator<T> where T: Equivalence :: fn empty_send_to_others
    //@ rewrite * `for $i_r in self.communicator.other_ranks()` => `let vx_rs = self.communicator.other_ranks(); for $i_r in vx_rs`
    //@ rewrite * `self.pending_data[$r]` => `*self.pending_data.vx_at($r)`
    //@ loops 1
    //@ spec
        requires old(self).wf(), old(self).in_step()
        ensures
            final(self).wf(), final(self).in_step(), final(self).communicator.same_place(&old(self).communicator),
            forall|q: int| final(self).communicator.other(q) ==> #[trigger] final(self).pending(q),
            forall|q: int| final(self).communicator.other(q) ==> #[trigger] final(self).communicator.sent(q) == if old(self).pending(q) { old(self).communicator.sent(q) } else { old(self).communicator.sent(q).push(Seq::empty()) },
            forall|q: int| #[trigger] final(self).communicator.got(q) == old(self).communicator.got(q),
    //@ entry
        let ghost s0 = *self;
    //@ loop 0 before
        let ghost vx_all = vx_rs@;
    //@ loop 0 after
        proof {
            assert forall|q: int| self.communicator.other(q) implies #[trigger] self.pending(q) by { assert(vx_all.contains(q as i32)); }
            assert forall|q: int| self.communicator.other(q) implies #[trigger] self.communicator.sent(q) == if s0.pending(q) { s0.communicator.sent(q) } else { s0.communicator.sent(q).push(Seq::empty()) } by { assert(vx_all.contains(q as i32)); }
        }
    //@ loop 0 binder it
    //@ loop 0 spec
        invariant
            it.seq() == vx_all, self.wf(), self.in_step(), self.communicator.same_place(&s0.communicator),
            forall|q: i32| #[trigger] it.seq().contains(q) <==> self.communicator.other(q as int),
            forall|j: int, k: int| 0 <= j < k < it.seq().len() ==> it.seq()[j] < it.seq()[k],
            forall|j: int| 0 <= j < it.index@ ==> self.pending(#[trigger] it.seq()[j] as int) && self.communicator.sent(it.seq()[j] as int) == if s0.pending(it.seq()[j] as int) { s0.communicator.sent(it.seq()[j] as int) } else { s0.communicator.sent(it.seq()[j] as int).push(Seq::empty()) },
            forall|j: int| it.index@ <= j < it.seq().len() ==> self.pending(#[trigger] it.seq()[j] as int) == s0.pending(it.seq()[j] as int) && self.communicator.sent(it.seq()[j] as int) == s0.communicator.sent(it.seq()[j] as int),
            forall|q: int| #[trigger] self.communicator.got(q) == s0.communicator.got(q),
    //@ loop 0 start
        assert(it.seq().contains(rank));
    //@ end

    //@ extract src/communication/exchange_communicator.rs :: impl<T> ExchangeCommunicator<T> where T: Equivalence :: fn receive_vec
    //@ rewrite 1 `DataByRank::from_communicator` => `DataByRank::<Vec<T>>::from_communicator`
    //@ rewrite * `for $i_r in self.communicator.other_ranks()` => `let vx_rs = self.communicator.other_ranks(); for $i_r in vx_rs`
    //@ rewrite * `debug_assert!($e)` => `vx_check($e)`
    //@ rewrite * `self.pending_data[$r] = $e;` => `self.pending_data.vx_set($r, $e);`
    //@ rewrite * `self.pending_data[$r]` => `*self.pending_data.vx_at($r)`
    //@ ret res
    //@ loops 2
    //@ spec
        requires old(self).wf(), old(self).in_step()
        ensures
            final(self).idle(), final(self).communicator.same_place(&old(self).communicator),
            forall|q: int| #[trigger] res.m().dom().contains(q) <==> final(self).communicator.other(q),
            forall|q: int| final(self).communicator.other(q) ==> #[trigger] final(self).communicator.sent(q) == if old(self).pending(q) { old(self).communicator.sent(q) } else { old(self).communicator.sent(q).push(Seq::empty()) },
            forall|q: int| final(self).communicator.other(q) ==> #[trigger] final(self).communicator.got(q) == old(self).communicator.got(q).push(res.m()[q]@),
    //@ entry
        let ghost s0 = *self;
    //@ loop 0 binder it
    //@ loop 0 spec
        invariant
            self.wf(),
            forall|q: int| self.communicator.other(q) ==> #[trigger] self.pending(q),
            forall|q: i32| #[trigger] it.seq().contains(q) <==> self.communicator.other(q as int),
    //@ loop 0 start
        assert(it.seq().contains(rank)); assert(self.pending(rank as int));
    //@ loop 1 before
        proof { assert forall|j: int| 0 <= j < vx_rs@.len() implies self.communicator.other(#[trigger] vx_rs@[j] as int) && self.pending(vx_rs@[j] as int) by { assert(vx_rs@.contains(vx_rs@[j])); } }
        let ghost s1 = *self;
        let ghost vx_all = vx_rs@;
    //@ loop 1 binder it
    //@ loop 1 spec
        invariant
            self.wf(), self.communicator.same_place(&s1.communicator), s1.in_step(), it.seq() == vx_all,
            forall|q: int| s1.communicator.other(q) ==> #[trigger] s1.pending(q),
            forall|q: i32| #[trigger] it.seq().contains(q) <==> self.communicator.other(q as int),
            forall|j: int, k: int| 0 <= j < k < it.seq().len() ==> it.seq()[j] < it.seq()[k],
            forall|q: int| #[trigger] self.communicator.sent(q) == s1.communicator.sent(q),
            forall|q: int| #[trigger] received_data.m().dom().contains(q) <==> self.communicator.other(q),
            forall|j: int| 0 <= j < it.index@ ==> !self.pending(#[trigger] it.seq()[j] as int) && self.communicator.got(it.seq()[j] as int) == s1.communicator.got(it.seq()[j] as int).push(received_data.m()[it.seq()[j] as int]@),
            forall|j: int| it.index@ <= j < it.seq().len() ==> self.pending(#[trigger] it.seq()[j] as int) && self.communicator.got(it.seq()[j] as int) == s1.communicator.got(it.seq()[j] as int),
    //@ loop 1 start
        proof {
            assert(it.seq().contains(rank));
            assert forall|q: int| self.communicator.other(q) implies #[trigger] self.communicator.sent(q).len() > self.communicator.got(rank as int).len() by {
                assert(s1.communicator.sent(q).len() == s1.communicator.got(rank as int).len() + 1);
            }
        }
    //@ loop 1 after
        proof {
            assert forall|q: int| self.communicator.other(q) implies !#[trigger] self.pending(q) by { assert(vx_all.contains(q as i32)); }
            assert forall|q: int| self.communicator.other(q) implies #[trigger] self.communicator.got(q) == s0.communicator.got(q).push(received_data.m()[q]@) by {
                assert(vx_all.contains(q as i32));
            }
            assert(self.in_step()) by {
                assert forall|q: int, p: int| self.communicator.other(q) && self.communicator.other(p) implies #[trigger] self.communicator.sent(q).len() == #[trigger] self.communicator.got(p).len() + if self.pending(q) { 1int } else { 0int } by {
                    assert(s1.communicator.sent(q).len() == s1.communicator.got(p).len() + 1);
                }
            }
        }
    //@ end

    //@ extract src/communication/exchange_communicator.rs :: impl<T> ExchangeCommunicator<T> where T: Equivalence :: fn exchange_all
    //@ rewrite 1 `<U: AsRef<[T]>>` => `<U: VxAsRef<T>>`
    //@ rewrite 1 `scope(|scope| {` => `{`
    //@ rewrite 1 `self.receive_vec() })` => `self.receive_vec() }`
    //@ rewrite 1 `(scope, ` => `(VxScope {}, `
    //@ rewrite 1 `guards.extend(guard.into_iter())` => `vx_keep(&mut guards, guard)`
    //@ rewrite * `debug_assert!($e)` => `vx_check($e)`
    //@ rewrite * `self.pending_data[$r] = $e;` => `self.pending_data.vx_set($r, $e);`
    //@ rewrite * `self.pending_data[$r]` => `*self.pending_data.vx_at($r)`
    //@ rewrite 1 `for $p in data.iter()` => `let vx_es = vx_entries(&data); for $p in vx_es`
    //@ ret res
    //@ loops 1
    //@ spec
        requires old(self).idle(), forall|q: int| #[trigger] data.m().dom().contains(q) ==> old(self).communicator.other(q)
        ensures
            final(self).idle(), final(self).communicator.same_place(&old(self).communicator),
            // one message to every other rank: what is addressed to it, or the empty message
            forall|q: int| final(self).communicator.other(q) ==> #[trigger] final(self).communicator.sent(q) == old(self).communicator.sent(q).push(message(data, q)),
            // one message from every other rank, handed out under that rank
            forall|q: int| final(self).communicator.other(q) ==> #[trigger] final(self).communicator.got(q) == old(self).communicator.got(q).push(res.m()[q]@),
            forall|q: int| #[trigger] res.m().dom().contains(q) <==> final(self).communicator.other(q),
    //@ entry
        let ghost s0 = *self;
    //@ loop 0 before
        let ghost vx_all = vx_es@;
    //@ loop 0 binder it
    //@ loop 0 spec
        invariant
            it.seq() == vx_all, self.wf(), self.in_step(), self.communicator.same_place(&s0.communicator),
            forall|j: int| 0 <= j < vx_all.len() ==> data.m().dom().contains((#[trigger] vx_all[j]).0 as int) && *vx_all[j].1 == data.m()[vx_all[j].0 as int],
            forall|j: int, k: int| 0 <= j < k < vx_all.len() ==> (#[trigger] vx_all[j]).0 < (#[trigger] vx_all[k]).0,
            forall|q: int| #[trigger] data.m().dom().contains(q) ==> self.communicator.other(q),
            forall|j: int| 0 <= j < it.index@ ==> self.pending((#[trigger] vx_all[j]).0 as int) && self.communicator.sent(vx_all[j].0 as int) == s0.communicator.sent(vx_all[j].0 as int).push(message(data, vx_all[j].0 as int)),
            forall|q: int| self.communicator.other(q) && (forall|j: int| 0 <= j < it.index@ ==> (#[trigger] vx_all[j]).0 != q) ==> !#[trigger] self.pending(q),
            forall|q: int| self.communicator.other(q) && (forall|j: int| 0 <= j < it.index@ ==> (#[trigger] vx_all[j]).0 != q) ==> #[trigger] self.communicator.sent(q) == s0.communicator.sent(q),
            forall|q: int| #[trigger] self.communicator.got(q) == s0.communicator.got(q),
    //@ loop 0 start
        let ghost vx_k = it.index@;
        proof { assert(vx_all[vx_k] == (rank, items)); assert(!self.pending(rank as int)); }
        let ghost s2 = *self;
    //@ loop 0 end
        proof {
            assert forall|q: int| self.communicator.other(q) && (forall|j: int| 0 <= j < vx_k + 1 ==> (#[trigger] vx_all[j]).0 != q) implies !#[trigger] self.pending(q) by {
                assert(vx_all[vx_k].0 != q); assert(!s2.pending(q)); assert(self.pending(q) == s2.pending(q));
            }
        }
    //@ end

    #[verifier::external_body]
    fn other_ranks(&self) -> (r: Vec<Rank>)
        ensures forall|q: i32| #[trigger] r@.contains(q) <==> self.communicator.other(q as int)
    { unimplemented!() }

    //@ extract src/communication/exchange_communicator.rs :: impl<T> ExchangeCommunicator<T> where T: Equivalence :: fn exchange_same_for_all
    //@ rewrite 1 `self.other_ranks().iter().map(|$i_r| (*$i_r, data)).collect()` => `vx_same(self.other_ranks(), data)`
    //@ ret res
    //@ spec
        requires old(self).idle()
        ensures
            final(self).idle(), final(self).communicator.same_place(&old(self).communicator),
            forall|q: int| final(self).communicator.other(q) ==> #[trigger] final(self).communicator.sent(q) == old(self).communicator.sent(q).push(data@),
            forall|q: int| final(self).communicator.other(q) ==> #[trigger] final(self).communicator.got(q) == old(self).communicator.got(q).push(res.m()[q]@),
            forall|q: int| #[trigger] res.m().dom().contains(q) <==> final(self).communicator.other(q),
    //@ end
}

// ---- all ranks together -----------------------------------------------------------------------------------
// s[a][b]: what rank a has sent to rank b; g[a][b]: what rank a has taken from rank b.  MPI delivers the
// messages between two ranks (with one tag) in order, so what was taken is a prefix of what was sent.
pub open spec fn delivered<T>(s: spec_fn(int, int) -> Seq<Seq<T>>, g: spec_fn(int, int) -> Seq<Seq<T>>, n: int) -> bool {
    forall|a: int, b: int| 0 <= a < n && 0 <= b < n && a != b ==> (#[trigger] g(b, a)).len() <= s(a, b).len() && g(b, a) == s(a, b).take(g(b, a).len() as int)
}
/// every rank has come through k exchanges: its contract gives k messages to and from every other rank
pub open spec fn after_exchanges<T>(s: spec_fn(int, int) -> Seq<Seq<T>>, g: spec_fn(int, int) -> Seq<Seq<T>>, n: int, k: int) -> bool {
    &&& forall|a: int, b: int| 0 <= a < n && 0 <= b < n && a != b ==> (#[trigger] s(a, b)).len() == k
    &&& forall|a: int, b: int| 0 <= a < n && 0 <= b < n && a != b ==> (#[trigger] g(a, b)).len() == k
}
/// then in every exchange everybody received exactly what was addressed to it in that exchange
pub proof fn exactly_once<T>(s: spec_fn(int, int) -> Seq<Seq<T>>, g: spec_fn(int, int) -> Seq<Seq<T>>, n: int, k: int, a: int, b: int, i: int)
    requires delivered(s, g, n), after_exchanges(s, g, n, k), 0 <= a < n, 0 <= b < n, a != b, 0 <= i < k
    ensures g(b, a)[i] == s(a, b)[i], g(b, a).len() == s(a, b).len()
{
    assert(g(b, a).len() == k && s(a, b).len() == k);
    assert(s(a, b).take(k)[i] == s(a, b)[i]);
}
}
fn main() {}
