// ---------------------------------------------------------------------------------- what follows from the contracts
/// what the first k neighbours get together
spec fn shared_upto(n: Seq<(Face, ParticleType)>, v: VecDimensionless, corr: real, k: int) -> real decreases k {
    if k <= 0 { 0real } else { shared_upto(n, v, corr, k - 1) + (if downwind(n[k - 1].0, v) { share(n, v, corr, k - 1) } else { 0real }) }
}
/// Conservation: the shares of the downwind neighbours together are what the cell passes on, no more and no less.
proof fn theorem_shares_add_up(n: Seq<(Face, ParticleType)>, v: VecDimensionless, corr: real)
    requires eff_upto(n, v, n.len() as int) != 0real,
    ensures shared_upto(n, v, corr, n.len() as int) == corr,
{
    lemma_shared(n, v, corr, n.len() as int);
    let t = eff_upto(n, v, n.len() as int);
    assert(corr * (t / t) == corr) by (nonlinear_arith) requires t != 0real;
}
proof fn lemma_shared(n: Seq<(Face, ParticleType)>, v: VecDimensionless, corr: real, k: int)
    requires eff_upto(n, v, n.len() as int) != 0real, 0 <= k <= n.len(),
    ensures shared_upto(n, v, corr, k) == corr * (eff_upto(n, v, k) / eff_upto(n, v, n.len() as int)),
    decreases k,
{
    let t = eff_upto(n, v, n.len() as int);
    if k <= 0 {
        assert(corr * (0real / t) == 0real) by (nonlinear_arith) requires t != 0real;
    } else {
        lemma_shared(n, v, corr, k - 1);
        let a = eff_upto(n, v, k - 1);
        let e = eff(n[k - 1].0, v);
        assert(corr * (a / t) + corr * (e / t) == corr * ((a + e) / t)) by (nonlinear_arith) requires t != 0real;
    }
}
/// Positive areas: the total is zero only if no face points downwind, so nothing is ever divided by zero.
proof fn theorem_total_positive(n: Seq<(Face, ParticleType)>, v: VecDimensionless, j: int)
    requires 0 <= j < n.len(), downwind(n[j].0, v), forall|k: int| 0 <= k < n.len() ==> (#[trigger] n[k]).0.area.v() > 0real,
    ensures eff_upto(n, v, n.len() as int) > 0real,
{
    lemma_positive(n, v, n.len() as int);
}
proof fn lemma_positive(n: Seq<(Face, ParticleType)>, v: VecDimensionless, k: int)
    requires 0 <= k <= n.len(), forall|k: int| 0 <= k < n.len() ==> (#[trigger] n[k]).0.area.v() > 0real,
    ensures
        eff_upto(n, v, k) >= 0real,
        forall|j: int| 0 <= j < k && downwind((#[trigger] n[j]).0, v) ==> eff_upto(n, v, k) > 0real,
    decreases k,
{
    if k > 0 {
        lemma_positive(n, v, k - 1);
        let (a, b) = (n[k - 1].0.area.v(), dotv(n[k - 1].0.normal, v));
        if b > 0real { assert(a * b > 0real) by (nonlinear_arith) requires a > 0real, b > 0real; }
    }
}
/// A task touches the rates and counters of its own direction only.
proof fn theorem_direction_apart(s: Sweep, b: Book, n: Seq<(Face, ParticleType)>, v: VecDimensionless, dir: DirectionIndex, corr: real, k: int)
    requires 0 <= k <= n.len(),
    ensures ({
        let c = hand_upto(s, b, n, v, dir, corr, k);
        c.sites.len() == b.sites.len() && forall|i: int, e: int| 0 <= i < b.sites.len() && e != dir.0 ==> same_slot(#[trigger] c.sites[i], b.sites[i], #[trigger] e_(e))
    }),
    decreases k,
{
    if k > 0 { theorem_direction_apart(s, b, n, v, dir, corr, k - 1); }
}
spec fn e_(e: int) -> int { e }
spec fn same_slot(x: SiteV, y: SiteV, e: int) -> bool {
    &&& x.inc.len() == y.inc.len() && x.per.len() == y.per.len() && x.miss.len() == y.miss.len()
    &&& 0 <= e < y.inc.len() ==> x.inc[e] == y.inc[e]
    &&& 0 <= e < y.per.len() ==> x.per[e] == y.per[e]
    &&& 0 <= e < y.miss.len() ==> x.miss[e] == y.miss[e]
}
/// Faces that point upwind (or along the direction) get nothing: with none pointing downwind nothing changes at all.
proof fn theorem_nothing_upwind(s: Sweep, b: Book, n: Seq<(Face, ParticleType)>, v: VecDimensionless, dir: DirectionIndex, corr: real, k: int)
    requires 0 <= k <= n.len(), forall|j: int| 0 <= j < k ==> !downwind((#[trigger] n[j]).0, v),
    ensures hand_upto(s, b, n, v, dir, corr, k) == b,
    decreases k,
{
    if k > 0 { theorem_nothing_upwind(s, b, n, v, dir, corr, k - 1); }
}
/// A local neighbour's incoming rate goes up by exactly its share; it becomes solvable exactly when it waited for one more.
proof fn theorem_local_share(s: Sweep, b: Book, id: ParticleId, dir: DirectionIndex, x: real)
    requires id.index < b.sites.len(), dir.0 < b.sites[id.index as int].inc.len(), dir.0 < b.sites[id.index as int].miss.len(), b.sites[id.index as int].miss[dir.0 as int] > 0,
    ensures ({
        let c = hand(s, b, ParticleType::Local(id), dir, x);
        let (i, d) = (id.index as int, dir.0 as int);
        &&& c.sites[i].inc[d].v() == b.sites[i].inc[d].v() + x
        &&& active(s, id) ==> c.sites[i].miss[d] == b.sites[i].miss[d] - 1
        &&& (c.queue == b.queue || (active(s, id) && b.sites[i].miss[d] == 1 && c.queue == b.queue.insert(Task { id, dir })))
        &&& active(s, id) && b.sites[i].miss[d] == 1 ==> c.queue == b.queue.insert(Task { id, dir })
    }),
{
}
