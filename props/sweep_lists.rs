type Rank = i32;
//@ extract src/particle.rs :: struct ParticleId
//@ end
//@ extract src/sweep/direction/mod.rs :: struct DirectionIndex
//@ end
//@ extract src/sweep/timestep_level.rs :: struct TimestepLevel
//@ end
impl Clone for ParticleId { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for ParticleId {}
impl Clone for DirectionIndex { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for DirectionIndex {}
impl Clone for TimestepLevel { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for TimestepLevel {}
fn vx_assert(b: bool) requires b {}

// ---------------------------------------------------------------- counters per direction
//@ extract src/sweep/count_by_dir.rs :: struct CountByDir
//@ end
/// what is counted for direction d
spec fn cnt(c: CountByDir, d: int) -> int { c.count_by_dir@[d] as int }
spec fn dirs(c: CountByDir) -> int { c.count_by_dir@.len() as int }
impl CountByDir {
//@ extract src/sweep/count_by_dir.rs :: impl CountByDir :: fn new
//@ rewrite * `(0..$n).map(|_| $v).collect()` => `vx_repeat(0, $n, $v)`
//@ rewrite * `vec![$v; $n]` => `vx_repeat(0, $n, $v)`
//@ ret r
//@ spec
    ensures dirs(r) == num_directions, forall|d: int| 0 <= d < num_directions ==> #[trigger] cnt(r, d) == value,
//@ end
//@ extract src/sweep/count_by_dir.rs :: impl CountByDir :: fn total
//@ rewrite * `$v.iter().sum()` => `vx_sum(&$v)`
//@ rewrite * `$v.iter().sum::<usize>()` => `vx_sum(&$v)`
//@ ret r
//@ spec
    requires vx_sum_of(self.count_by_dir@) <= usize::MAX,
    ensures r == vx_sum_of(self.count_by_dir@),
//@ end
//@ extract src/sweep/count_by_dir.rs :: impl CountByDir :: fn empty
//@ rewrite * `vec![]` => `Vec::new()`
//@ ret r
//@ spec
    ensures dirs(r) == 0,
//@ end
//@ extract src/sweep/count_by_dir.rs :: impl std::ops::Index<DirectionIndex> for CountByDir :: fn index
//@ rewrite * `Self::Output` => `usize`
//@ rewrite * `*index` => `index.0`
//@ ret r
//@ spec
    requires index.0 < self.count_by_dir@.len(),
    ensures *r == cnt(*self, index.0 as int),
//@ end
//@ extract src/sweep/count_by_dir.rs :: impl std::ops::IndexMut<DirectionIndex> for CountByDir :: fn index_mut
//@ rewrite * `Self::Output` => `usize`
//@ rewrite * `*index` => `index.0`
//@ ret r
//@ spec
    requires index.0 < old(self).count_by_dir@.len(),
    ensures
        *r == cnt(*old(self), index.0 as int),
        final(self).count_by_dir@ == old(self).count_by_dir@.update(index.0 as int, *final(r)),
//@ end
//@ extract src/sweep/count_by_dir.rs :: impl CountByDir :: fn reduce
//@ rewrite * `self[dir] -= $e;` => `*self.index_mut(dir) -= $e;`
//@ rewrite * `self[dir] += $e;` => `*self.index_mut(dir) += $e;`
//@ rewrite * `self[dir] = $e;` => `*self.index_mut(dir) = $e;`
//@ rewrite * `self[dir]` => `*self.index(dir)`
//@ ret r
//@ spec
    requires dir.0 < old(self).count_by_dir@.len(), cnt(*old(self), dir.0 as int) > 0,
    ensures
        final(self).count_by_dir@ == old(self).count_by_dir@.update(dir.0 as int, (old(self).count_by_dir@[dir.0 as int] - 1) as usize),
        r == cnt(*old(self), dir.0 as int) - 1,
//@ end
}
/// Together with `reduce`: the total goes down by exactly one, so it reaches zero exactly when all counts have.
proof fn lemma_total_reduced(s: Seq<usize>, d: int)
    requires 0 <= d < s.len(), s[d] > 0,
    ensures vx_sum_of(s.update(d, (s[d] - 1) as usize)) == vx_sum_of(s) - 1,
    decreases s.len(),
{
    let t = s.update(d, (s[d] - 1) as usize);
    if d == s.len() - 1 {
        assert(t.drop_last() =~= s.drop_last());
    } else {
        assert(t.drop_last() =~= s.drop_last().update(d, (s[d] - 1) as usize));
        lemma_total_reduced(s.drop_last(), d);
    }
}
proof fn lemma_total_zero(s: Seq<usize>)
    ensures vx_sum_of(s) == 0 <==> (forall|d: int| 0 <= d < s.len() ==> s[d] == 0),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_total_zero(s.drop_last());
        assert forall|d: int| 0 <= d < s.len() - 1 implies s[d] == s.drop_last()[d] by {}
        if vx_sum_of(s) == 0 {
            assert forall|d: int| 0 <= d < s.len() implies s[d] == 0 by { if d < s.len() - 1 { assert(s.drop_last()[d] == 0); } }
        }
    }
}

// ---------------------------------------------------------------- cells with their levels
impl TimestepLevel {
//@ extract src/sweep/timestep_level.rs :: impl TimestepLevel :: fn is_active
//@ rewrite * `*self >= current_level` => `self.0 >= current_level.0`
//@ ret r
//@ spec
    ensures r == (self.0 >= current_level.0),
//@ end
}
//@ extract src/sweep/active_list.rs :: struct ActiveList
//@ end
spec fn wf<T>(l: ActiveList<T>) -> bool { l.items@.len() == l.levels@.len() && l.items@.len() <= u32::MAX }
spec fn has<T>(l: ActiveList<T>, id: ParticleId) -> bool { id.rank == l.rank && id.index < l.items@.len() }
spec fn item<T>(l: ActiveList<T>, id: ParticleId) -> T { l.items@[id.index as int] }
spec fn level<T>(l: ActiveList<T>, id: ParticleId) -> int { l.levels@[id.index as int].0 as int }
/// everything but the items is as before
spec fn same_levels<T>(a: ActiveList<T>, b: ActiveList<T>) -> bool {
    a.levels == b.levels && a.rank == b.rank && a.bins == b.bins && a.valid == b.valid && a.max_num_levels == b.max_num_levels
}
/// the bins hold each cell once, in the bin of its level
spec fn binned(l: Seq<TimestepLevel>, bins: Seq<Vec<usize>>, upto: int) -> bool {
    &&& forall|b: int, k: int| 0 <= b < bins.len() && 0 <= k < bins[b]@.len() ==> (#[trigger] bins[b]@[k]) < upto && l[bins[b]@[k] as int].0 == b
    &&& forall|i: int| 0 <= i < upto ==> #[trigger] in_bin(bins[l[i].0 as int]@, i)
    &&& forall|b: int, j: int, k: int| 0 <= b < bins.len() && 0 <= j < k < bins[b]@.len() ==> #[trigger] bins[b]@[j] < #[trigger] bins[b]@[k]
}
spec fn in_bin(b: Seq<usize>, i: int) -> bool { exists|k: int| 0 <= k < b.len() && b[k] == i }
impl<T> ActiveList<T> {
//@ extract src/sweep/active_list.rs :: impl<T> ActiveList<T> :: fn get_id_from_index
//@ ret r
//@ spec
    requires index <= u32::MAX,
    ensures r.rank == self.rank, r.index == index,
//@ end
//@ extract src/sweep/active_list.rs :: impl<T> ActiveList<T> :: fn get_mut_and_active_state
//@ rewrite * `debug_assert!($e)` => `vx_assert($e)`
//@ rewrite * `level.is_active(` => `(*level).is_active(`
//@ ret r
//@ spec
    requires wf(*old(self)), has(*old(self), id),
    ensures
        *r.0 == item(*old(self), id),
        r.1 == (level(*old(self), id) >= current_level.0),
        final(self).items@ == old(self).items@.update(id.index as int, *final(r.0)),
        final(self).levels@ =~= old(self).levels@, final(self).rank == old(self).rank,
        final(self).bins == old(self).bins, final(self).valid == old(self).valid, final(self).max_num_levels == old(self).max_num_levels,
//@ end
//@ extract src/sweep/active_list.rs :: impl<T> ActiveList<T> :: fn get_mut
//@ rewrite * `debug_assert!($e)` => `vx_assert($e)`
//@ ret r
//@ spec
    requires wf(*old(self)), has(*old(self), id),
    ensures
        *r == item(*old(self), id),
        final(self).items@ == old(self).items@.update(id.index as int, *final(r)),
        same_levels(*final(self), *old(self)),
//@ end
//@ extract src/sweep/active_list.rs :: impl<T> ActiveList<T> :: fn get_mut_with_level
//@ rewrite * `debug_assert!($e)` => `vx_assert($e)`
//@ ret r
//@ spec
    requires wf(*old(self)), has(*old(self), id),
    ensures
        *r.1 == item(*old(self), id),
        r.0.0 == level(*old(self), id),
        final(self).items@ == old(self).items@.update(id.index as int, *final(r.1)),
        same_levels(*final(self), *old(self)),
//@ end
//@ extract src/sweep/active_list.rs :: impl<T> ActiveList<T> :: fn get
//@ rewrite * `debug_assert!($e)` => `vx_assert($e)`
//@ ret r
//@ spec
    requires wf(*self), has(*self, id),
    ensures *r == item(*self, id),
//@ end
//@ extract src/sweep/active_list.rs :: impl<T> ActiveList<T> :: fn get_level
//@ rewrite * `debug_assert!($e)` => `vx_assert($e)`
//@ ret r
//@ spec
    requires wf(*self), has(*self, id),
    ensures r.0 == level(*self, id),
//@ end
//@ extract src/sweep/active_list.rs :: impl<T> ActiveList<T> :: fn set_level
//@ rewrite * `debug_assert!($e)` => `vx_assert($e)`
//@ spec
    requires wf(*old(self)), has(*old(self), id),
    ensures
        final(self).items == old(self).items,
        final(self).levels@ == old(self).levels@.update(id.index as int, level),
        final(self).rank == old(self).rank, final(self).max_num_levels == old(self).max_num_levels,
        // the bins no longer count until they are made anew
        !final(self).valid,
//@ end
//@ extract src/sweep/active_list.rs :: impl<T> ActiveList<T> :: fn update_bins
//@ rewrite * `let mut bins = vec![];` => `let mut bins: Vec<Vec<usize>> = Vec::new();`
//@ rewrite * `bins.push(vec![])` => `bins.push(Vec::new())`
//@ rewrite * `for _ in` => `for vx_k in`
//@ rewrite * `for (i, level) in self.levels.iter().enumerate()` => `for i in 0..self.levels.len()`
//@ rewrite * `bins[level.0].push(i)` => `bins[self.levels[i].0].push(i)`
//@ loops 2
//@ spec
    requires wf(*old(self)), forall|i: int| 0 <= i < old(self).levels@.len() ==> (#[trigger] old(self).levels@[i]).0 < old(self).max_num_levels,
    ensures
        final(self).items == old(self).items, final(self).levels == old(self).levels, final(self).rank == old(self).rank, final(self).max_num_levels == old(self).max_num_levels,
        final(self).valid,
        final(self).bins@.len() == final(self).max_num_levels,
        binned(final(self).levels@, final(self).bins@, final(self).levels@.len() as int),
//@ loop 0 spec
        invariant bins@.len() == vx_k, forall|b: int| 0 <= b < bins@.len() ==> (#[trigger] bins@[b])@.len() == 0,
//@ loop 1 spec
        invariant
            wf(*self), bins@.len() == self.max_num_levels,
            forall|k: int| 0 <= k < self.levels@.len() ==> (#[trigger] self.levels@[k]).0 < self.max_num_levels,
            binned(self.levels@, bins@, i as int),
//@ loop 1 start
        let ghost b0 = bins@;
        let ghost t = self.levels@[i as int].0 as int;
//@ loop 1 end
        proof {
            assert(bins@.len() == b0.len());
            assert(bins@[t]@ == b0[t]@.push(i));
            assert forall|b: int| 0 <= b < b0.len() && b != t implies #[trigger] bins@[b] == b0[b] by {}
            assert forall|k: int| 0 <= k < i + 1 implies #[trigger] in_bin(bins@[self.levels@[k].0 as int]@, k) by {
                let b = self.levels@[k].0 as int;
                if k == i { assert(bins@[b]@[b0[t]@.len() as int] == i); } else {
                    assert(in_bin(b0[b]@, k));
                    let q = choose|q: int| 0 <= q < b0[b]@.len() && b0[b]@[q] == k;
                    assert(bins@[b]@[q] == k);
                }
            }
            assert forall|b: int, j: int, k: int| 0 <= b < bins@.len() && 0 <= j < k < bins@[b]@.len() implies #[trigger] bins@[b]@[j] < #[trigger] bins@[b]@[k] by {
                if b == t && k == b0[t]@.len() { assert(b0[t]@[j] < i); } else { assert(b0[b]@[j] < b0[b]@[k]); }
            }
            assert forall|b: int, k: int| 0 <= b < bins@.len() && 0 <= k < bins@[b]@.len() implies (#[trigger] bins@[b]@[k]) < i + 1 && self.levels@[bins@[b]@[k] as int].0 == b by {
                if b == t && k == b0[t]@.len() {} else { assert(b0[b]@[k] < i); }
            }
        }
//@ end
}
