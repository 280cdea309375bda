use vstd::prelude::*;
verus! {
type Rank = i32;
//@ include ../vx_helpers.rs
trait SizedCommunicator {
    spec fn sz(&self) -> int;
    spec fn rk(&self) -> int;
    fn size(&self) -> (r: usize) ensures r == self.sz(), r <= i32::MAX;
    fn rank(&self) -> (r: Rank) ensures r == self.rk();
//@ extract src/communication/sized_communicator.rs :: trait SizedCommunicator :: fn other_ranks
//@ rewrite 1 `($a..$b).filter(|$i_r| $e).collect()` => `vx_filter_range($a, $b, |$i_r: &i32| -> (o: bool) ensures o == (*$i_r != self.rk()) { $e })`
//@ ret res
//@ spec
    ensures
        forall|r: i32| res@.contains(r) <==> (0 <= r < self.sz() && r != self.rk()),
        forall|j: int, k: int| 0 <= j < k < res@.len() ==> res@[j] < res@[k],
//@ end
//@ extract src/communication/sized_communicator.rs :: trait SizedCommunicator :: fn all_ranks
//@ rewrite 1 `($a..$b).collect()` => `vx_range($a, $b)`
//@ ret res
//@ spec
    ensures res@.len() == self.sz(), forall|j: int| 0 <= j < res@.len() ==> #[trigger] res@[j] == j,
//@ end
}
}
fn main() {}
