use vstd::prelude::*;
verus! {
//@ include ../vx_helpers.rs
//@ include ../reals.rs
pub type Time = R;
impl R {
    #[verifier::external_body]
    pub fn ge(&self, o: &R) -> (b: bool) ensures b == (self.v() >= o.v()) { unimplemented!() }
}
pub struct SimulationTime(pub Time);
pub struct StopSimulationEvent {}
/// assumed of bevy: the events of this step that were not read yet
pub struct EventReader { pub events: Vec<StopSimulationEvent> }
impl EventReader { pub fn is_empty(&self) -> (b: bool) ensures b == (self.events@.len() == 0) { self.events.len() == 0 } }
#[derive(PartialEq, Eq)]
pub enum ShouldRun { Yes, No }
/// assumed of bevy: a resource that was inserted is there
pub struct Commands { pub timer: Option<Timer> }
impl Commands { pub fn insert_resource(&mut self, t: Timer) ensures final(self).timer == Some(t) { self.timer = Some(t); } }
pub struct OutputParameters { pub time_between_snapshots: Time, pub time_first_snapshot: Option<Time> }
pub uninterp spec fn is_static_spec<T>() -> bool;
#[verifier::external_body]
fn vx_is_static<T>() -> (b: bool) ensures b == is_static_spec::<T>() { unimplemented!() }
fn vx_is_yes(s: &ShouldRun) -> (b: bool) ensures b == (*s == ShouldRun::Yes) { matches!(s, ShouldRun::Yes) }
//@ extract src/io/output/timer.rs :: struct Timer
//@ rewrite * `units::Time` => `Time`
//@ end
/// when the first snapshot is due
spec fn first(p: OutputParameters) -> real { match p.time_first_snapshot { Some(t) => t.v(), None => 0real } }
spec fn due(time: SimulationTime, timer: Timer, ended: bool) -> bool { ended || time.0.v() >= timer.next_output_time.v() }
impl Timer {
    //@ extract src/io/output/timer.rs :: impl Timer :: fn initialize_system
    //@ rewrite 1 `mut commands: Commands` => `commands: &mut Commands`
    //@ rewrite 1 `Res<OutputParameters>` => `&OutputParameters`
    //@ rewrite * `parameters.time_first_snapshot.unwrap_or_else(units::Time::zero)` => `match parameters.time_first_snapshot { Some(vx_t) => vx_t, None => R::zero() }`
    //@ rewrite * `parameters.time_first_snapshot.unwrap_or(units::Time::zero())` => `match parameters.time_first_snapshot { Some(vx_t) => vx_t, None => R::zero() }`
    //@ spec
        ensures final(commands).timer matches Some(t) && t.snapshot_num == 0 && t.next_output_time.v() == first(*parameters),
    //@ end
    //@ extract src/io/output/timer.rs :: impl Timer :: fn run_criterion
    //@ rewrite 1 `Res<SimulationTime>` => `&SimulationTime`
    //@ rewrite 1 `Res<Self>` => `&Self`
    //@ rewrite 1 `EventReader<StopSimulationEvent>` => `EventReader`
    //@ rewrite * `time.0 >= timer.next_output_time` => `time.0.ge(&timer.next_output_time)`
    //@ rewrite * `time.0 < timer.next_output_time` => `time.0.lt(&timer.next_output_time)`
    //@ ret r
    //@ spec
        ensures r == (if due(*time, *timer, events.events@.len() > 0) { ShouldRun::Yes } else { ShouldRun::No }),
    //@ end
    //@ extract src/io/output/timer.rs :: impl Timer :: fn dataset_write_run_criterion
    //@ rewrite 1 `<T: ToDataset>` => `<T>`
    //@ rewrite 1 `Res<SimulationTime>` => `&SimulationTime`
    //@ rewrite 1 `Res<Self>` => `&Self`
    //@ rewrite 1 `EventReader<StopSimulationEvent>` => `EventReader`
    //@ rewrite * `T::is_static()` => `vx_is_static::<T>()`
    //@ rewrite * `should_run == ShouldRun::Yes` => `vx_is_yes(&should_run)`
    //@ ret r
    //@ spec
        // a field is written to every snapshot; one that never changes to the first only
        ensures r == (if due(*time, *timer, events.events@.len() > 0) && (!is_static_spec::<T>() || timer.snapshot_num == 0) { ShouldRun::Yes } else { ShouldRun::No }),
    //@ end
    //@ extract src/io/output/timer.rs :: impl Timer :: fn update_system
    //@ rewrite 1 `mut output_timer: ResMut<Self>` => `output_timer: &mut Self`
    //@ rewrite 1 `Res<OutputParameters>` => `&OutputParameters`
    //@ spec
        requires old(output_timer).snapshot_num < usize::MAX,
        ensures advanced(*old(output_timer), *final(output_timer), *parameters),
    //@ end
    //@ extract src/io/output/timer.rs :: impl Timer :: fn snapshot_num
    //@ ret r
    //@ spec
        ensures r == self.snapshot_num,
    //@ end
    //@ extract src/io/output/timer.rs :: impl Timer :: fn is_first_snapshot
    //@ ret r
    //@ spec
        ensures r == (self.snapshot_num == 0),
    //@ end
}
spec fn advanced(a: Timer, b: Timer, p: OutputParameters) -> bool {
    b.snapshot_num == a.snapshot_num + 1 && b.next_output_time.v() == a.next_output_time.v() + p.time_between_snapshots.v()
}
// ------------------------------------------------------------------ over all histories
/// one step of the run: the systems of the output stage run if and only if the criterion says so, the timer is advanced last
spec fn step(a: Timer, b: Timer, p: OutputParameters, time: SimulationTime, ended: bool) -> bool {
    if due(time, a, ended) { advanced(a, b, p) } else { b == a }
}
spec fn history(ts: Seq<Timer>, p: OutputParameters, times: Seq<SimulationTime>, ended: Seq<bool>) -> bool {
    &&& ts.len() == times.len() + 1 && ended.len() == times.len()
    &&& ts[0].snapshot_num == 0 && ts[0].next_output_time.v() == first(p)
    &&& forall|k: int| 0 <= k < times.len() ==> step(ts[k], #[trigger] ts[k + 1], p, times[k], ended[k])
}
/// the outputs of the first k steps
spec fn outputs(ts: Seq<Timer>, times: Seq<SimulationTime>, ended: Seq<bool>, k: int) -> nat decreases k {
    if k <= 0 { 0 } else { outputs(ts, times, ended, k - 1) + (if due(times[k - 1], ts[k - 1], ended[k - 1]) { 1nat } else { 0nat }) }
}
/// Whatever the steps: the n-th output has number n (no number twice, none left out) and is due from first + n * interval on.
proof fn theorem_history(ts: Seq<Timer>, p: OutputParameters, times: Seq<SimulationTime>, ended: Seq<bool>, k: int)
    requires history(ts, p, times, ended), 0 <= k <= times.len(),
    ensures
        ts[k].snapshot_num == outputs(ts, times, ended, k),
        ts[k].next_output_time.v() == first(p) + (outputs(ts, times, ended, k) as real) * p.time_between_snapshots.v(),
    decreases k,
{
    if k > 0 {
        theorem_history(ts, p, times, ended, k - 1);
        let _ = ts[k - 1 + 1];
        let n = outputs(ts, times, ended, k - 1);
        let dt = p.time_between_snapshots.v();
        assert(((n + 1) as real) * dt == (n as real) * dt + dt) by (nonlinear_arith);
        assert(((n + 0) as real) == n as real);
    } else {
        assert((0 as real) * p.time_between_snapshots.v() == 0real) by (nonlinear_arith);
    }
}
/// With an interval of zero an output is written at every step from the first on.
proof fn theorem_every_step(ts: Seq<Timer>, p: OutputParameters, times: Seq<SimulationTime>, ended: Seq<bool>, k: int)
    requires history(ts, p, times, ended), 0 <= k < times.len(), p.time_between_snapshots.v() == 0real, times[k].0.v() >= first(p),
    ensures due(times[k], ts[k], ended[k]),
{
    theorem_history(ts, p, times, ended, k);
    assert((outputs(ts, times, ended, k) as real) * 0real == 0real) by (nonlinear_arith);
}
/// No output is late: at the n-th output time the number of outputs grows, unless n outputs were written already.
proof fn theorem_none_left_out(ts: Seq<Timer>, p: OutputParameters, times: Seq<SimulationTime>, ended: Seq<bool>, k: int)
    requires
        history(ts, p, times, ended), 0 <= k < times.len(),
        times[k].0.v() >= first(p) + (outputs(ts, times, ended, k) as real) * p.time_between_snapshots.v(),
    ensures outputs(ts, times, ended, k + 1) == outputs(ts, times, ended, k) + 1,
{
    theorem_history(ts, p, times, ended, k);
}
}
fn main() {}
