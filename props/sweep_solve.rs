/// the cell's incoming rate of this direction without what rounding made negative
spec fn cleaned(b: Book, i: int, d: int) -> Book {
    let s = b.sites[i];
    Book { sites: b.sites.update(i, SiteV { inc: s.inc.update(d, if s.inc[d].v() < 0real { num(0real) } else { s.inc[d] }), per: s.per, miss: s.miss }), queue: b.queue, sends: b.sends }
}
/// what a cell offers to the chemistry, for a direction
spec fn offered(s: Sweep, id: ParticleId, dir: DirectionIndex) -> real {
    let x = s.sites.items@[id.index as int];
    let inc = x.incoming_total_rate@[dir.0 as int].v();
    (if inc < 0real { 0real } else { inc }) + x.source.v() / (s.directions.num() as real) + x.periodic_source@[dir.0 as int].v()
}
fn vx_r() {}
impl Sweep {
    //@ extract src/sweep/mod.rs :: impl<C: Chemistry> Sweep<C> :: fn get_outgoing_rate
    //@ rewrite * `Rate<C>` => `R`
    //@ rewrite * `let cell = &self.cells.get(task.id)` => `let cell = self.cells.get(task.id)`
    //@ rewrite 1 `self.chemistry.get_outgoing_rate($e)` => `let vx_q = self.chemistry.get_outgoing_rate($e); vx_r(); vx_q`
    //@ ret r
    //@ spec
        requires ok(*old(self)), has(old(self).sites, task.id), task.dir.0 < old(self).directions.num(),
        ensures
            ok(*final(self)), rest(*final(self), *old(self)), outs(*final(self)) == outs(*old(self)),
            book(*final(self)) == cleaned(book(*old(self)), task.id.index as int, task.dir.0 as int),
            offered(*old(self), task.id, task.dir) >= 0real ==> 0real <= r.v() <= offered(*old(self), task.id, task.dir),
            final(self).to_solve_count == old(self).to_solve_count, final(self).to_receive_count == old(self).to_receive_count,
    //@ before `let vx_q`
        proof { assert(incoming_rate.v() == offered(*old(self), task.id, task.dir)); }
    //@ before `vx_r`
        proof {
            assert(book(*self).sites =~= cleaned(book(*old(self)), task.id.index as int, task.dir.0 as int).sites);
            assert(outs(*self) =~= outs(*old(self)));
        }
    //@ end
    //@ extract src/sweep/mod.rs :: impl<C: Chemistry> Sweep<C> :: fn solve_task
    //@ rewrite 1 `let this = unsafe { let this = self as *mut Sweep<C>; &mut *this as &mut Sweep<C> };` => ``
    //@ rewrite * `this.` => `self.`
    //@ rewrite 1 `let dir = &self.directions[task.dir];` => `let vx_d = self.directions.index(task.dir).0; let dir = &vx_d;`
    //@ rewrite * `**dir` => `*dir`
    //@ rewrite 1 `let cell = &self.cells.get(task.id);` => `let cell = vx_copy(self.cells.get(task.id));`
    //@ rewrite 1 `cell.iter_downwind_faces(dir).map(|$i_f| $e).sum();` => `{ let vx_fs = cell.iter_downwind_faces(dir); let mut vx_t: FaceArea = R::zero(); for $i_f in vx_it: vx_fs.iter() invariant vx_t.v() == eff_of(faces(vx_fs@).take(vx_it.index@ as int), *dir) { proof { lemma_eff_step(faces(vx_fs@), *dir, vx_it.index@ as int); } vx_t = vx_t + $e; } proof { lemma_all(faces(vx_fs@)); lemma_eff_of(cell.neighbours@, *dir, cell.neighbours@.len() as int); } vx_t };`
    //@ rewrite 1 `for (face, neighbour) in cell.neighbours.iter()` => `for vx_p in vx_j: cell.neighbours.iter()`
    //@ spec
        requires
            ok(*old(self)), has(old(self).sites, task.id), task.dir.0 < old(self).directions.num(),
            old(self).to_solve_count.count_by_dir@[task.dir.0 as int] > 0,
            waits(*old(self), book(*old(self)), the_cell(*old(self), task).neighbours@, the_dir(*old(self), task), task.dir, 0),
            forall|k: int| 0 <= k < the_cell(*old(self), task).neighbours@.len() ==> neighbour_ok(*old(self), (#[trigger] the_cell(*old(self), task).neighbours@[k]).1),
        ensures
            ok(*final(self)), rest(*final(self), *old(self)),
            // this direction's counter has gone down by one
            final(self).to_solve_count.count_by_dir@ == old(self).to_solve_count.count_by_dir@.update(task.dir.0 as int, (old(self).to_solve_count.count_by_dir@[task.dir.0 as int] - 1) as usize),
            final(self).to_receive_count == old(self).to_receive_count,
            // the cell's rate of this direction, and no other, has changed; every downwind neighbour has got its share of the change
            exists|o: R| #![auto] task_done(*old(self), *final(self), task, o),
    //@ before `let vx_d = self.directions.index(task.dir).0`
        let ghost s1 = *self;
        let ghost corr = outgoing_rate_correction.v();
        let ghost i = task.id.index as int;
        let ghost d = task.dir.0 as int;
        let ghost o = self.sites.items@[i].outgoing_total_rate@[d];
        proof {
            assert(book(s1).sites =~= cleaned(book(*old(self)), i, d).sites);
            assert(outs(s1) =~= outs(*old(self)).update(i, outs(*old(self))[i].update(d, o)));
        }
    //@ loop 1 before
        let ghost n = cell.neighbours@;
        let ghost v = *dir;
        let ghost b1 = book(s1);
        proof { lemma_waits_cleaned(*old(self), book(*old(self)), n, v, task.dir, i); }
    //@ loop 1 spec
            invariant
                n == cell.neighbours@, n == the_cell(*old(self), task).neighbours@, v == *dir, v == the_dir(*old(self), task),
                d == task.dir.0, i == task.id.index,
                ok(*old(self)), ok(*self), rest(*self, s1), rest(s1, *old(self)), task.dir.0 < self.directions.num(),
                outs(*self) == outs(s1), self.to_solve_count == s1.to_solve_count, self.to_receive_count == s1.to_receive_count,
                total_effective_area.v() == eff_upto(n, v, n.len() as int),
                corr == outgoing_rate_correction.v(),
                b1 == book(s1),
                book(*self) == hand_upto(*old(self), b1, n, v, task.dir, corr, vx_j.index@ as int),
                self.to_send.to().dom() == old(self).to_send.to().dom(),
                waits(*old(self), book(*self), n, v, task.dir, vx_j.index@ as int),
                forall|k: int| 0 <= k < n.len() ==> neighbour_ok(*old(self), (#[trigger] n[k]).1),
    //@ loop 1 start
            let face = &vx_p.0;
            let neighbour = &vx_p.1;
            let ghost k = vx_j.index@ as int;
            let ghost s2 = *self;
            proof {
                assert(n[k] == *vx_p);
                assert(neighbour_ok(*old(self), n[k].1));
                lemma_waits_step(*old(self), book(*self), n, v, task.dir, k);
                reveal_with_fuel(hand_upto, 2);
            }
    //@ loop 1 end
            proof {
                assert(book(*self) == hand_upto(*old(self), b1, n, v, task.dir, corr, k + 1));
                assert(self.to_send.to().dom() =~= old(self).to_send.to().dom());
            }
    //@ exit
        proof { assert(task_done(*old(self), *self, task, o)); }
    //@ end
}
spec fn the_cell(s: Sweep, t: Task) -> Cell { s.cells.items@[t.id.index as int] }
spec fn the_dir(s: Sweep, t: Task) -> VecDimensionless { s.directions.at(t.dir) }
/// the task t took the sweep from a to b, with o now going out of the cell
spec fn task_done(a: Sweep, b: Sweep, t: Task, o: R) -> bool {
    let i = t.id.index as int;
    let d = t.dir.0 as int;
    let n = the_cell(a, t).neighbours@;
    &&& outs(b) == outs(a).update(i, outs(a)[i].update(d, o))
    &&& book(b) == hand_upto(a, cleaned(book(a), i, d), n, the_dir(a, t), t.dir, o.v() - outs(a)[i][d].v(), n.len() as int)
    &&& offered(a, t.id, t.dir) >= 0real ==> 0real <= o.v() <= offered(a, t.id, t.dir)
}
proof fn lemma_waits_cleaned(s: Sweep, b: Book, n: Seq<(Face, ParticleType)>, v: VecDimensionless, dir: DirectionIndex, i: int)
    requires waits(s, b, n, v, dir, 0), 0 <= i < b.sites.len(), ok(s), b.sites.len() == s.sites.items@.len(),
    ensures waits(s, cleaned(b, i, dir.0 as int), n, v, dir, 0),
{
    let c = cleaned(b, i, dir.0 as int);
    assert forall|id: ParticleId| has(s.sites, id) && active(s, id) implies ({
        let m = (#[trigger] c.sites[id.index as int]).miss;
        m.len() == s.directions.num() && m[dir.0 as int] >= to_local(n, v, id, 0)
    }) by { let _ = b.sites[id.index as int]; }
}
/// handing something to the k-th neighbour leaves every cell waiting for those that are still to come
proof fn lemma_waits_step(s: Sweep, b: Book, n: Seq<(Face, ParticleType)>, v: VecDimensionless, dir: DirectionIndex, k: int)
    requires
        ok(s), waits(s, b, n, v, dir, k), 0 <= k < n.len(), b.sites.len() == s.sites.items@.len(), neighbour_ok(s, n[k].1), dir.0 < s.directions.num(),
        forall|i: int| 0 <= i < b.sites.len() ==> (#[trigger] b.sites[i]).inc.len() == s.directions.num() && b.sites[i].per.len() == s.directions.num(),
    ensures
        !downwind(n[k].0, v) ==> waits(s, b, n, v, dir, k + 1),
        downwind(n[k].0, v) ==> forall|x: real| waits(s, #[trigger] hand(s, b, n[k].1, dir, x), n, v, dir, k + 1),
        downwind(n[k].0, v) ==> match n[k].1 { ParticleType::Local(id) => active(s, id) ==> b.sites[id.index as int].miss.len() == s.directions.num() && b.sites[id.index as int].miss[dir.0 as int] > 0, _ => true },
{
    if !downwind(n[k].0, v) {
        assert forall|id: ParticleId| has(s.sites, id) && active(s, id) implies ({
            let m = (#[trigger] b.sites[id.index as int]).miss;
            m.len() == s.directions.num() && m[dir.0 as int] >= to_local(n, v, id, k + 1)
        }) by {}
    } else {
        assert forall|x: real| waits(s, #[trigger] hand(s, b, n[k].1, dir, x), n, v, dir, k + 1) by {
            let c = hand(s, b, n[k].1, dir, x);
            assert forall|id: ParticleId| has(s.sites, id) && active(s, id) implies ({
                let m = (#[trigger] c.sites[id.index as int]).miss;
                m.len() == s.directions.num() && m[dir.0 as int] >= to_local(n, v, id, k + 1)
            }) by { let _ = b.sites[id.index as int]; }
        }
    }
}
