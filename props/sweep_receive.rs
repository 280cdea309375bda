// ---------------------------------------------------------------------------------- what other ranks hand to us
spec fn take_in(s: Sweep, b: Book, m: RateData) -> Book {
    if m.periodic { hand_periodic(b, m.id, m.dir, m.rate.v()) } else { hand_local(b, m.id, m.dir, m.rate.v(), active(s, m.id)) }
}
spec fn take_upto(s: Sweep, b: Book, ms: Seq<RateData>, k: int) -> Book decreases k { if k <= 0 { b } else { take_in(s, take_upto(s, b, ms, k - 1), ms[k - 1]) } }
/// the messages from the k-th on that a cell waits for
spec fn for_cell(ms: Seq<RateData>, id: ParticleId, dir: DirectionIndex, k: int) -> nat decreases ms.len() - k {
    if k >= ms.len() { 0 } else { for_cell(ms, id, dir, k + 1) + (if !ms[k].periodic && ms[k].id == id && ms[k].dir == dir { 1nat } else { 0nat }) }
}
/// messages are for cells there are, and the active ones wait for them
spec fn expected(s: Sweep, b: Book, ms: Seq<RateData>, k: int) -> bool {
    &&& forall|j: int| 0 <= j < ms.len() ==> has(s.sites, (#[trigger] ms[j]).id) && ms[j].dir.0 < s.directions.num()
    &&& forall|id: ParticleId, dir: DirectionIndex| has(s.sites, id) && active(s, id) && dir.0 < s.directions.num() ==> #[trigger] waits_for(s, b, ms, id, dir, k)
}
spec fn waits_for(s: Sweep, b: Book, ms: Seq<RateData>, id: ParticleId, dir: DirectionIndex, k: int) -> bool {
    let m = b.sites[id.index as int].miss;
    m.len() == s.directions.num() && m[dir.0 as int] >= for_cell(ms, id, dir, k)
}
proof fn lemma_expected_step(s: Sweep, b: Book, ms: Seq<RateData>, k: int)
    requires expected(s, b, ms, k), 0 <= k < ms.len(), b.sites.len() == s.sites.items@.len(), ok(s),
    ensures
        expected(s, take_in(s, b, ms[k]), ms, k + 1),
        !ms[k].periodic && active(s, ms[k].id) ==> b.sites[ms[k].id.index as int].miss.len() == s.directions.num() && b.sites[ms[k].id.index as int].miss[ms[k].dir.0 as int] > 0,
{
    let c = take_in(s, b, ms[k]);
    assert(has(s.sites, ms[k].id) && ms[k].dir.0 < s.directions.num());
    assert(active(s, ms[k].id) ==> waits_for(s, b, ms, ms[k].id, ms[k].dir, k));
    assert forall|id: ParticleId, dir: DirectionIndex| has(s.sites, id) && active(s, id) && dir.0 < s.directions.num() implies #[trigger] waits_for(s, c, ms, id, dir, k + 1) by {
        assert(waits_for(s, b, ms, id, dir, k));
    }
}
impl Sweep {
    //@ extract src/sweep/mod.rs :: impl<C: Chemistry> Sweep<C> :: fn receive_messages_from_rank
    //@ rewrite * `self.to_receive_count[rank] -= $e;` => `{ let vx_n = self.to_receive_count.vx_at(rank) - $e; self.to_receive_count.vx_set(rank, vx_n); }`
    //@ rewrite 1 `in received.into_iter()` => `in vx_it: received.iter()`
    //@ spec
        requires
            ok(*old(self)), old(self).to_receive_count.of().contains_key(rank),
            old(self).communicator.next_from(rank).len() <= old(self).to_receive_count.of()[rank],
            expected(*old(self), book(*old(self)), old(self).communicator.next_from(rank), 0),
        ensures
            ok(*final(self)), rest(*final(self), *old(self)), outs(*final(self)) == outs(*old(self)), final(self).to_solve_count == old(self).to_solve_count,
            ({
                let ms = old(self).communicator.next_from(rank);
                // nothing was there, or everything was taken in, each message once, and counted
                ||| book(*final(self)) == book(*old(self)) && final(self).to_receive_count.of() == old(self).to_receive_count.of()
                ||| book(*final(self)) == take_upto(*old(self), book(*old(self)), ms, ms.len() as int)
                    && final(self).to_receive_count.of() == old(self).to_receive_count.of().insert(rank, (old(self).to_receive_count.of()[rank] - ms.len()) as usize)
            }),
    //@ loop 0 before
        let ghost ms = old(self).communicator.next_from(rank);
        let ghost counts = self.to_receive_count;
    //@ loop 0 spec
            invariant
                ms == received@, ms == old(self).communicator.next_from(rank),
                ok(*old(self)), ok(*self), rest(*self, *old(self)), outs(*self) == outs(*old(self)), self.to_solve_count == old(self).to_solve_count,
                self.to_receive_count == counts,
                book(*self) == take_upto(*old(self), book(*old(self)), ms, vx_it.index@ as int),
                expected(*old(self), book(*self), ms, vx_it.index@ as int),
    //@ loop 0 start
                let ghost k = vx_it.index@ as int;
                proof {
                    assert(*d == ms[k]);
                    lemma_expected_step(*old(self), book(*self), ms, k);
                    reveal_with_fuel(take_upto, 2);
                }
    //@ end
}
