// The sweep over one cell: Sweep's fields, the neighbours of a cell, what is handed to them.
// Monomorphic: a rate is a real number, the chemistry any function of what it is given.
pub type FaceArea = R;
pub type Dimensionless = R;
pub type Length = R;
pub struct Volume {}
pub type Density = R;
pub struct Time {}
pub struct Species { pub ionized_hydrogen_fraction: R }
pub struct TimestepState {}
pub struct TimescaleCounter {}
pub struct ActiveWrapType {}
pub struct PhotonThreshold {}

/// a vector in space; only its products with other vectors matter
pub struct VecDimensionless { pub id: Ghost<int> }
pub uninterp spec fn dotv(a: VecDimensionless, b: VecDimensionless) -> real;
impl VecDimensionless { pub fn dot(self, o: VecDimensionless) -> (x: R) ensures x.v() == dotv(self, o) { R { r: Ghost(dotv(self, o)) } } }
impl Clone for VecDimensionless { fn clone(&self) -> (x: Self) ensures x == *self { VecDimensionless { id: Ghost(self.id@) } } }
impl Copy for VecDimensionless {}

//@ extract src/sweep/direction/mod.rs :: struct Direction
//@ end
//@ extract src/sweep/direction/mod.rs :: struct Directions
//@ end
impl Directions {
    pub closed spec fn num(&self) -> nat { self.directions@.len() }
    pub closed spec fn at(&self, d: DirectionIndex) -> VecDimensionless { self.directions@[d.0 as int].0 }
    //@ extract src/sweep/direction/mod.rs :: impl Directions :: fn len
    //@ ret r
    //@ spec
        ensures r == self.num(),
    //@ end
    //@ extract src/sweep/direction/mod.rs :: impl std::ops::Index<DirectionIndex> for Directions :: fn index
    //@ rewrite * `Self::Output` => `Direction`
    //@ ret r
    //@ spec
        requires index.0 < self.num(),
        ensures r.0 == self.at(index),
    //@ end
}

// ---------------------------------------------------------------------------------- cells and faces
//@ extract src/sweep/grid/cell.rs :: struct RemoteNeighbour
//@ end
//@ extract src/sweep/grid/cell.rs :: struct PeriodicNeighbour
//@ end
//@ extract src/sweep/grid/cell.rs :: struct RemotePeriodicNeighbour
//@ end
//@ extract src/sweep/grid/cell.rs :: enum ParticleType
//@ end
//@ extract src/sweep/grid/cell.rs :: struct Face
//@ end
//@ extract src/sweep/grid/cell.rs :: struct Cell
//@ end
pub open spec fn downwind(f: Face, d: VecDimensionless) -> bool { dotv(f.normal, d) > 0real }
pub open spec fn upwind(f: Face, d: VecDimensionless) -> bool { dotv(f.normal, d) < 0real }
/// the area of a face as seen along a direction
pub open spec fn eff(f: Face, d: VecDimensionless) -> real { f.area.v() * dotv(f.normal, d) }
/// ... of the first k faces together, those that point downwind
pub open spec fn eff_upto(n: Seq<(Face, ParticleType)>, d: VecDimensionless, k: int) -> real decreases k {
    if k <= 0 { 0real } else { eff_upto(n, d, k - 1) + (if downwind(n[k - 1].0, d) { eff(n[k - 1].0, d) } else { 0real }) }
}
pub open spec fn downs(n: Seq<(Face, ParticleType)>, d: VecDimensionless, k: int) -> Seq<Face> decreases k {
    if k <= 0 { Seq::empty() } else if downwind(n[k - 1].0, d) { downs(n, d, k - 1).push(n[k - 1].0) } else { downs(n, d, k - 1) }
}
pub open spec fn eff_of(s: Seq<Face>, d: VecDimensionless) -> real decreases s.len() { if s.len() == 0 { 0real } else { eff_of(s.drop_last(), d) + eff(s.last(), d) } }
proof fn lemma_eff_of(n: Seq<(Face, ParticleType)>, d: VecDimensionless, k: int)
    requires 0 <= k <= n.len(),
    ensures eff_of(downs(n, d, k), d) == eff_upto(n, d, k),
    decreases k,
{
    if k > 0 {
        lemma_eff_of(n, d, k - 1);
        if downwind(n[k - 1].0, d) { assert(downs(n, d, k).drop_last() =~= downs(n, d, k - 1)); }
    }
}
proof fn lemma_eff_step(s: Seq<Face>, d: VecDimensionless, k: int)
    requires 0 <= k < s.len(),
    ensures eff_of(s.take(k + 1), d) == eff_of(s.take(k), d) + eff(s[k], d),
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
}
proof fn lemma_all<T>(s: Seq<T>) ensures s.take(s.len() as int) == s { assert(s.take(s.len() as int) =~= s); }
impl Face {
    //@ extract src/sweep/grid/cell.rs :: impl Face :: fn points_upwind
    //@ ret r
    //@ spec
        ensures r == upwind(*self, *dir),
    //@ end
    //@ extract src/sweep/grid/cell.rs :: impl Face :: fn points_downwind
    //@ ret r
    //@ spec
        ensures r == downwind(*self, *dir),
    //@ end
}
pub open spec fn faces(s: Seq<&Face>) -> Seq<Face> { s.map_values(|f: &Face| *f) }
proof fn lemma_faces_push(s: Seq<&Face>, f: &Face) ensures faces(s.push(f)) == faces(s).push(*f) { assert(faces(s.push(f)) =~= faces(s).push(*f)); }
impl Cell {
    //@ extract src/sweep/grid/cell.rs :: impl Cell :: fn iter_downwind_faces
    //@ rewrite 1 `impl Iterator<Item = &Face> + 'a` => `Vec<&'a Face>`
    //@ rewrite 1 `self.neighbours.iter().map(|($i_f, _)| $i_f).filter(|$i_g| $e)` => `{ let mut vx_out: Vec<&Face> = Vec::new(); for vx_p in vx_it: self.neighbours.iter() invariant faces(vx_out@) == downs(self.neighbours@, *direction, vx_it.index@ as int) { let $i_g = &vx_p.0; let vx_yes = $e; if vx_yes { proof { lemma_faces_push(vx_out@, $i_g); } vx_out.push($i_g); } } vx_out }`
    //@ ret r
    //@ spec
        ensures faces(r@) == downs(self.neighbours@, *direction, self.neighbours@.len() as int),
    //@ end
}

// ---------------------------------------------------------------------------------- the state of a cell
//@ extract src/sweep/site.rs :: struct Site
//@ rewrite 1 `Site<C: Chemistry>` => `Site`
//@ rewrite * `C::Photons` => `R`
//@ rewrite * `Species<C>` => `Species`
//@ end
/// the rates of a cell, direction by direction, and how many upwind neighbours it waits for
pub struct SiteV { pub inc: Seq<R>, pub per: Seq<R>, pub miss: Seq<usize> }
pub closed spec fn sv(s: Site) -> SiteV { SiteV { inc: s.incoming_total_rate@, per: s.periodic_source@, miss: s.num_missing_upwind.count_by_dir@ } }
pub closed spec fn outv(s: Site) -> Seq<R> { s.outgoing_total_rate@ }
/// the rate of a direction: what came in, what comes in across the periodic boundary, and this direction's share of the cell's own source
pub closed spec fn rate_of(s: Site, n: int, d: int) -> real { s.incoming_total_rate@[d].v() + s.source.v() / (n as real) + s.periodic_source@[d].v() }
impl Site {
    //@ extract src/sweep/site.rs :: impl<C: Chemistry> Site<C> :: fn source_per_direction_bin
    //@ rewrite * `C::Photons` => `R`
    //@ rewrite * `num_directions as Float` => `R::of(num_directions)`
    //@ rewrite * `num_directions as f64` => `R::of(num_directions)`
    //@ ret r
    //@ spec
        ensures r.v() == self.source.v() / (num_directions as real),
    //@ end
    //@ extract src/sweep/site.rs :: impl<C: Chemistry> Site<C> :: fn get_rate
    //@ rewrite * `Rate<C>` => `R`
    //@ ret r
    //@ spec
        requires dir.0 < self.incoming_total_rate@.len(), dir.0 < self.periodic_source@.len(),
        ensures r.v() == rate_of(*self, num_directions as int, dir.0 as int),
    //@ end
}
/// the rates of all directions together contain the source once
proof fn theorem_source_once(s: real, n: int)
    requires n > 0,
    ensures (s / (n as real)) * (n as real) == s,
{
    assert((s / (n as real)) * (n as real) == s) by (nonlinear_arith) requires n as real > 0real;
}
impl R {
    //@ extract src/chemistry/mod.rs :: trait Photons :: fn make_positive
    //@ rewrite * `*self < Self::zero()` => `self.lt(&Self::zero())`
    //@ spec
        ensures final(self).v() == (if old(self).v() < 0real { 0real } else { old(self).v() }),
    //@ end
}

// ---------------------------------------------------------------------------------- messages and tasks
//@ extract src/sweep/task.rs :: struct Task
//@ end
//@ extract src/sweep/task.rs :: struct RateData
//@ rewrite 1 `RateData<C: Chemistry>` => `RateData`
//@ rewrite * `Rate<C>` => `R`
//@ end
pub type RateDataC = RateData;
/// assumed of BinaryHeap: it holds what was pushed and not popped
#[verifier::external_body]
pub struct PriorityQueue { q: Vec<Task> }
impl PriorityQueue {
    pub uninterp spec fn tasks(&self) -> Multiset<Task>;
    #[verifier::external_body]
    pub fn push(&mut self, t: Task) ensures final(self).tasks() == old(self).tasks().insert(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<Task>)
        ensures match r {
            Some(t) => old(self).tasks().contains(t) && final(self).tasks() == old(self).tasks().remove(t),
            None => old(self).tasks() == Multiset::<Task>::empty() && final(self).tasks() == old(self).tasks(),
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (b: bool) ensures b == (self.tasks() == Multiset::<Task>::empty()) { unimplemented!() }
}
/// assumed of DataByRank (its contract is C03): one queue per other rank
#[verifier::external_body]
pub struct Outbox { q: Vec<RateData> }
impl Outbox {
    pub uninterp spec fn to(&self) -> Map<Rank, Seq<RateData>>;
    #[verifier::external_body]
    pub fn vx_push(&mut self, rank: Rank, m: RateData)
        requires old(self).to().contains_key(rank),
        ensures final(self).to() == old(self).to().insert(rank, old(self).to()[rank].push(m)) { unimplemented!() }
}
/// assumed of DataByRank<usize>: one number per other rank
#[verifier::external_body]
pub struct Counts { q: Vec<usize> }
impl Counts {
    pub uninterp spec fn of(&self) -> Map<Rank, usize>;
    #[verifier::external_body]
    pub fn vx_at(&self, rank: Rank) -> (r: usize) requires self.of().contains_key(rank) ensures r == self.of()[rank] { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_set(&mut self, rank: Rank, n: usize) requires old(self).of().contains_key(rank) ensures final(self).of() == old(self).of().insert(rank, n) { unimplemented!() }
}
/// assumed of the hash map of the levels of neighbours on other ranks
#[verifier::external_body]
pub struct HaloLevels { q: Vec<TimestepLevel> }
impl HaloLevels {
    pub uninterp spec fn of(&self) -> Map<ParticleId, TimestepLevel>;
    #[verifier::external_body]
    pub fn vx_at(&self, id: &ParticleId) -> (r: TimestepLevel) requires self.of().contains_key(*id) ensures r == self.of()[*id] { unimplemented!() }
}
/// assumed of the communicator: a message from a rank, once there, is handed over whole
#[verifier::external_body]
pub struct SweepCommunicator { c: u8 }
impl SweepCommunicator {
    pub uninterp spec fn next_from(&self, rank: Rank) -> Seq<RateData>;
    #[verifier::external_body]
    pub fn try_recv(&mut self, rank: Rank) -> (r: Option<Vec<RateData>>)
        ensures match r { Some(v) => v@ == old(self).next_from(rank), None => true } { unimplemented!() }
}
/// any chemistry: what it lets through is between nothing and all (proved of HydrogenOnly below)
#[verifier::external_body]
pub struct AnyChemistry { c: u8 }
impl AnyChemistry {
    #[verifier::external_body]
    pub fn get_outgoing_rate(&self, cell: &Cell, site: &Site, incoming_rate: R) -> (r: R)
        ensures incoming_rate.v() >= 0real ==> 0real <= r.v() <= incoming_rate.v() { unimplemented!() }
}

//@ extract src/sweep/mod.rs :: struct Sweep
//@ rewrite 1 `Sweep<C: Chemistry>` => `Sweep`
//@ rewrite 1 `cells: Cells` => `cells: ActiveList<Cell>`
//@ rewrite 1 `sites: Sites<C>` => `sites: ActiveList<Site>`
//@ rewrite 1 `HashMap<ParticleId, TimestepLevel>` => `HaloLevels`
//@ rewrite 1 `PriorityQueue<Task>` => `PriorityQueue`
//@ rewrite 1 `DataByRank<Queue<RateData<C>>>` => `Outbox`
//@ rewrite 1 `DataByRank<usize>` => `Counts`
//@ rewrite 1 `SweepCommunicator<C>` => `SweepCommunicator`
//@ rewrite 1 `units::PhotonRate` => `PhotonThreshold`
//@ rewrite 1 `chemistry: C` => `chemistry: AnyChemistry`
//@ end
/// what a cell hands on changes only this
pub struct Book { pub sites: Seq<SiteV>, pub queue: Multiset<Task>, pub sends: Map<Rank, Seq<RateData>> }
spec fn book(s: Sweep) -> Book { Book { sites: s.sites.items@.map_values(|x: Site| sv(x)), queue: s.to_solve.tasks(), sends: s.to_send.to() } }
spec fn outs(s: Sweep) -> Seq<Seq<R>> { s.sites.items@.map_values(|x: Site| outv(x)) }
/// the level of a cell, here or elsewhere
spec fn level_of(s: Sweep, id: ParticleId) -> TimestepLevel { if id.rank == s.rank { s.cells.levels@[id.index as int] } else { s.halo_levels.of()[id] } }
spec fn known(s: Sweep, id: ParticleId) -> bool { if id.rank == s.rank { id.index < s.cells.items@.len() } else { s.halo_levels.of().contains_key(id) } }
spec fn active(s: Sweep, id: ParticleId) -> bool { level_of(s, id).0 >= s.current_level.0 }
/// rest: everything that handing on must not touch
spec fn rest(a: Sweep, b: Sweep) -> bool {
    &&& a.directions == b.directions && a.cells == b.cells && a.halo_levels == b.halo_levels
    &&& a.current_level == b.current_level && a.rank == b.rank && a.chemistry == b.chemistry
    &&& a.sites.levels@ =~= b.sites.levels@ && a.sites.rank == b.sites.rank && a.sites.items@.len() == b.sites.items@.len()
    &&& a.sites.bins == b.sites.bins && a.sites.valid == b.sites.valid && a.sites.max_num_levels == b.sites.max_num_levels
    &&& a.check_deadlock == b.check_deadlock && a.num_tasks_to_solve_before_send_receive == b.num_tasks_to_solve_before_send_receive
}
/// cells and sites belong together; every site has a slot for every direction
spec fn ok(s: Sweep) -> bool {
    &&& wf(s.cells) && wf(s.sites) && s.cells.rank == s.rank && s.sites.rank == s.rank
    &&& s.cells.items@.len() == s.sites.items@.len() && s.cells.levels@ =~= s.sites.levels@
    &&& s.to_solve_count.count_by_dir@.len() == s.directions.num()
    &&& forall|i: int| 0 <= i < s.sites.items@.len() ==> slots(#[trigger] s.sites.items@[i], s.directions.num())
}
/// a cell has a slot of each kind for every direction (the counter of an inactive cell may be from an earlier sweep)
spec fn slots(x: Site, n: nat) -> bool { sv(x).inc.len() == n && sv(x).per.len() == n && outv(x).len() == n }
