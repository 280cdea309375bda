// ---------------------------------------------------------------------------------- handing on
spec fn hand_local(b: Book, id: ParticleId, dir: DirectionIndex, x: real, act: bool) -> Book {
    let i = id.index as int;
    let d = dir.0 as int;
    let s = b.sites[i];
    let inc = s.inc.update(d, num(s.inc[d].v() + x));
    if act {
        let m = (s.miss[d] - 1) as usize;
        Book {
            sites: b.sites.update(i, SiteV { inc, per: s.per, miss: s.miss.update(d, m) }),
            queue: if m == 0 { b.queue.insert(Task { id, dir }) } else { b.queue },
            sends: b.sends,
        }
    } else {
        Book { sites: b.sites.update(i, SiteV { inc, per: s.per, miss: s.miss }), queue: b.queue, sends: b.sends }
    }
}
spec fn hand_periodic(b: Book, id: ParticleId, dir: DirectionIndex, x: real) -> Book {
    let i = id.index as int;
    let d = dir.0 as int;
    let s = b.sites[i];
    Book { sites: b.sites.update(i, SiteV { inc: s.inc, per: s.per.update(d, num(s.per[d].v() + x)), miss: s.miss }), queue: b.queue, sends: b.sends }
}
/// a correction to a cell of another rank is sent if that cell takes part in this sweep (otherwise it is dropped: known finding)
spec fn hand_remote(b: Book, rank: Rank, id: ParticleId, dir: DirectionIndex, x: real, act: bool, periodic: bool) -> Book {
    if act { Book { sites: b.sites, queue: b.queue, sends: b.sends.insert(rank, b.sends[rank].push(RateData { id, dir, rate: num(x), periodic })) } } else { b }
}
spec fn hand(s: Sweep, b: Book, to: ParticleType, dir: DirectionIndex, x: real) -> Book {
    match to {
        ParticleType::Local(id) => hand_local(b, id, dir, x, active(s, id)),
        ParticleType::LocalPeriodic(p) => hand_periodic(b, p.id, dir, x),
        ParticleType::Remote(r) => hand_remote(b, r.rank, r.id, dir, x, active(s, r.id), false),
        ParticleType::RemotePeriodic(r) => hand_remote(b, r.rank, r.id, dir, x, active(s, r.id), true),
        ParticleType::Boundary => b,
    }
}
/// what the cell hands to its k-th neighbour
spec fn share(n: Seq<(Face, ParticleType)>, v: VecDimensionless, corr: real, k: int) -> real { corr * (eff(n[k].0, v) / eff_upto(n, v, n.len() as int)) }
/// the first k downwind neighbours have got their share, nobody else got anything
spec fn hand_upto(s: Sweep, b: Book, n: Seq<(Face, ParticleType)>, v: VecDimensionless, dir: DirectionIndex, corr: real, k: int) -> Book decreases k {
    if k <= 0 { b } else {
        let c = hand_upto(s, b, n, v, dir, corr, k - 1);
        if downwind(n[k - 1].0, v) { hand(s, c, n[k - 1].1, dir, share(n, v, corr, k - 1)) } else { c }
    }
}
/// how many of the neighbours from the k-th on are downwind and this local cell
spec fn to_local(n: Seq<(Face, ParticleType)>, v: VecDimensionless, id: ParticleId, k: int) -> nat decreases n.len() - k {
    if k >= n.len() || k < 0 { 0 } else { to_local(n, v, id, k + 1) + (if downwind(n[k].0, v) && n[k].1 == ParticleType::Local(id) { 1nat } else { 0nat }) }
}
/// neighbours are cells there are; there is an outbox for the rank of each remote one
spec fn neighbour_ok(s: Sweep, p: ParticleType) -> bool {
    match p {
        ParticleType::Local(id) => has(s.sites, id),
        ParticleType::LocalPeriodic(q) => has(s.sites, q.id),
        ParticleType::Remote(r) => known(s, r.id) && s.to_send.to().contains_key(r.rank),
        ParticleType::RemotePeriodic(r) => known(s, r.id) && s.to_send.to().contains_key(r.rank),
        ParticleType::Boundary => true,
    }
}
/// every active cell waits for at least the neighbours that are still to hand something to it
spec fn waits(s: Sweep, b: Book, n: Seq<(Face, ParticleType)>, v: VecDimensionless, dir: DirectionIndex, k: int) -> bool {
    forall|id: ParticleId| has(s.sites, id) && active(s, id) ==> {
        let m = (#[trigger] b.sites[id.index as int]).miss;
        m.len() == s.directions.num() && m[dir.0 as int] >= to_local(n, v, id, k)
    }
}
#[verifier::external_body]
fn vx_copy(c: &Cell) -> (r: Cell) ensures r == *c { unimplemented!() }

impl Sweep {
    //@ extract src/sweep/mod.rs :: impl<C: Chemistry> Sweep<C> :: fn get_level
    //@ rewrite * `self.halo_levels[&id]` => `self.halo_levels.vx_at(&id)`
    //@ ret r
    //@ spec
        requires ok(*self), known(*self, id),
        ensures r == level_of(*self, id),
    //@ end
    //@ extract src/sweep/mod.rs :: impl<C: Chemistry> Sweep<C> :: fn is_active
    //@ ret r
    //@ spec
        requires ok(*self), known(*self, id),
        ensures r == active(*self, id),
    //@ end
    //@ extract src/sweep/mod.rs :: impl<C: Chemistry> Sweep<C> :: fn handle_local_neighbour
    //@ rewrite * `Rate<C>` => `R`
    //@ rewrite * `[*dir]` => `[dir.0]`
    //@ spec
        requires
            ok(*old(self)), has(old(self).sites, neighbour), dir.0 < old(self).directions.num(),
            active(*old(self), neighbour) ==> ({
                let m = book(*old(self)).sites[neighbour.index as int].miss;
                dir.0 < m.len() && m[dir.0 as int] > 0
            }),
        ensures
            book(*final(self)) == hand_local(book(*old(self)), neighbour, dir, incoming_rate_correction.v(), active(*old(self), neighbour)),
            ok(*final(self)), rest(*final(self), *old(self)), outs(*final(self)) == outs(*old(self)),
            final(self).to_solve_count == old(self).to_solve_count, final(self).to_receive_count == old(self).to_receive_count,
    //@ exit
        proof {
            assert(book(*self).sites =~= hand_local(book(*old(self)), neighbour, dir, incoming_rate_correction.v(), active(*old(self), neighbour)).sites);
            assert(outs(*self) =~= outs(*old(self)));
        }
    //@ end
    //@ extract src/sweep/mod.rs :: impl<C: Chemistry> Sweep<C> :: fn handle_local_periodic_neighbour
    //@ rewrite * `Rate<C>` => `R`
    //@ rewrite * `[*dir]` => `[dir.0]`
    //@ spec
        requires ok(*old(self)), has(old(self).sites, neighbour), dir.0 < old(self).directions.num(),
        ensures
            book(*final(self)) == hand_periodic(book(*old(self)), neighbour, dir, incoming_rate_correction.v()),
            ok(*final(self)), rest(*final(self), *old(self)), outs(*final(self)) == outs(*old(self)),
            final(self).to_solve_count == old(self).to_solve_count, final(self).to_receive_count == old(self).to_receive_count,
    //@ exit
        proof {
            assert(book(*self).sites =~= hand_periodic(book(*old(self)), neighbour, dir, incoming_rate_correction.v()).sites);
            assert(outs(*self) =~= outs(*old(self)));
        }
    //@ end
    //@ extract src/sweep/mod.rs :: impl<C: Chemistry> Sweep<C> :: fn handle_remote_neighbour
    //@ rewrite * `Rate<C>` => `R`
    //@ rewrite * `self.to_send[$r].push($e)` => `self.to_send.vx_push($r, $e)`
    //@ spec
        requires ok(*old(self)), known(*old(self), remote.id), old(self).to_send.to().contains_key(remote.rank),
        ensures
            book(*final(self)) == hand_remote(book(*old(self)), remote.rank, remote.id, task.dir, rate_correction.v(), active(*old(self), remote.id), false),
            ok(*final(self)), rest(*final(self), *old(self)), outs(*final(self)) == outs(*old(self)),
            final(self).to_solve_count == old(self).to_solve_count, final(self).to_receive_count == old(self).to_receive_count,
    //@ end
    //@ extract src/sweep/mod.rs :: impl<C: Chemistry> Sweep<C> :: fn handle_remote_periodic_neighbour
    //@ rewrite * `Rate<C>` => `R`
    //@ rewrite * `self.to_send[$r].push($e)` => `self.to_send.vx_push($r, $e)`
    //@ spec
        requires ok(*old(self)), known(*old(self), neighbour.id), old(self).to_send.to().contains_key(neighbour.rank),
        ensures
            book(*final(self)) == hand_remote(book(*old(self)), neighbour.rank, neighbour.id, task.dir, rate_correction.v(), active(*old(self), neighbour.id), true),
            ok(*final(self)), rest(*final(self), *old(self)), outs(*final(self)) == outs(*old(self)),
            final(self).to_solve_count == old(self).to_solve_count, final(self).to_receive_count == old(self).to_receive_count,
    //@ end
}
