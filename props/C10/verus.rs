use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use core::marker::PhantomData;
verus! {
pub type Work = u64;
pub type Rank = i32;
// stand for types that play no role here
pub struct VecLength {}
pub struct Extent<P> { p: P }

// ------------------------------------------------------------------------------------ keys
pub trait Key: PartialOrd + Ord + Copy {
    /// the number of the key, and the largest there is
    spec fn v(&self) -> int;
    spec fn top() -> int;
    /// how often the search for a cut may halve its range
    spec fn depth() -> nat;
    fn vx_max_depth() -> (r: usize) ensures r == Self::depth();
    /// assumed of the derived order: it is the order of the numbers
    proof fn ordered(a: Self, b: Self)
        ensures
            <Self as PartialOrdSpec<Self>>::obeys_partial_cmp_spec(),
            PartialOrdSpec::partial_cmp_spec(&a, &b) == (if a.v() < b.v() { Some(Ordering::Less) } else if a.v() == b.v() { Some(Ordering::Equal) } else { Some(Ordering::Greater) }),
            0 <= a.v() <= Self::top();
    fn middle(start: Self, end: Self) -> (r: Self)
        requires start.v() <= end.v(),
        ensures start.v() <= r.v() <= end.v(), r.v() == start.v() + (end.v() - start.v()) / 2 || r.v() == start.v() + (end.v() - start.v() + 1) / 2;
    fn next(self) -> (r: Self)
        ensures r.v() == (if self.v() < Self::top() { self.v() + 1 } else { self.v() });
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
//@ extract src/peano_hilbert.rs :: struct PeanoKey2d
//@ end
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
//@ extract src/peano_hilbert.rs :: struct PeanoKey3d
//@ end
impl Key for PeanoKey2d {
    open spec fn v(&self) -> int { self.0 as int }
    open spec fn top() -> int { u64::MAX as int }
    open spec fn depth() -> nat { 32 }
    fn vx_max_depth() -> (r: usize) { 32 }
    #[verifier::external_body]
    proof fn ordered(a: Self, b: Self) {}
//@ extract src/domain/key.rs :: impl Key for PeanoKey2d :: fn middle
//@ end
//@ extract src/domain/key.rs :: impl Key for PeanoKey2d :: fn next
//@ end
}
impl Key for PeanoKey3d {
    open spec fn v(&self) -> int { self.0 as int }
    open spec fn top() -> int { u128::MAX as int }
    open spec fn depth() -> nat { 42 }
    fn vx_max_depth() -> (r: usize) { 42 }
    #[verifier::external_body]
    proof fn ordered(a: Self, b: Self) {}
//@ extract src/domain/key.rs :: impl Key for PeanoKey3d :: fn middle
//@ end
//@ extract src/domain/key.rs :: impl Key for PeanoKey3d :: fn next
//@ end
}

// slice.partition_point(p): the number of leading elements that satisfy p, when those that do come first
fn vx_partition_point<T, P: Fn(&T) -> bool>(v: &[T], p: P, Ghost(yes): Ghost<spec_fn(T) -> bool>) -> (r: usize)
    requires
        forall|i: int| 0 <= i < v@.len() ==> call_requires(p, (&#[trigger] v@[i],)),
        forall|x: T, b: bool| #[trigger] call_ensures(p, (&x,), b) ==> b == yes(x),
        forall|i: int, j: int| 0 <= i < j < v@.len() && yes(v@[j]) ==> yes(v@[i]),
    ensures
        r <= v@.len(),
        forall|i: int| 0 <= i < r ==> yes(#[trigger] v@[i]),
        forall|i: int| r <= i < v@.len() ==> !yes(#[trigger] v@[i]),
{
    let mut i: usize = 0;
    while i < v.len()
        invariant
            i <= v@.len(),
            forall|i: int| 0 <= i < v@.len() ==> call_requires(p, (&#[trigger] v@[i],)),
            forall|x: T, b: bool| #[trigger] call_ensures(p, (&x,), b) ==> b == yes(x),
            forall|i: int, j: int| 0 <= i < j < v@.len() && yes(v@[j]) ==> yes(v@[i]),
            forall|k: int| 0 <= k < i ==> yes(#[trigger] v@[k]),
        decreases v@.len() - i,
    {
        if !p(&v[i]) {
            return i;
        }
        i = i + 1;
    }
    i
}

// v.iter().min(), v.iter().max(): a smallest / largest element, none of nothing
fn vx_extreme<K: Key>(v: &Vec<K>, smallest: bool) -> (r: Option<&K>)
    ensures
        v@.len() == 0 <==> r is None,
        match r { None => true, Some(x) => v@.contains(*x) && forall|i: int| 0 <= i < v@.len() ==> (if smallest { x.v() <= (#[trigger] v@[i]).v() } else { x.v() >= v@[i].v() }) },
{
    if v.len() == 0 {
        return None;
    }
    let mut best: usize = 0;
    let mut i: usize = 1;
    while i < v.len()
        invariant
            0 <= best < i <= v@.len(),
            forall|k: int| 0 <= k < i ==> (if smallest { v@[best as int].v() <= (#[trigger] v@[k]).v() } else { v@[best as int].v() >= v@[k].v() }),
        decreases v@.len() - i,
    {
        proof { K::ordered(v@[i as int], v@[best as int]); }
        if (smallest && v[i] < v[best]) || (!smallest && v[i] > v[best]) {
            best = i;
        }
        i = i + 1;
    }
    Some(&v[best])
}

// ------------------------------------------------------------------------------------ counting keys
/// the number of keys below x
pub open spec fn below<K: Key>(s: Seq<K>, x: int) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { below(s.drop_last(), x) + (if s.last().v() < x { 1nat } else { 0nat }) }
}
pub open spec fn sorted<K: Key>(s: Seq<K>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> s[i].v() <= s[j].v() }
proof fn lemma_below_mono<K: Key>(s: Seq<K>, x: int, y: int)
    requires x <= y,
    ensures below(s, x) <= below(s, y) <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 { lemma_below_mono(s.drop_last(), x, y); }
}
proof fn lemma_below_is<K: Key>(s: Seq<K>, x: int, p: int)
    requires 0 <= p <= s.len(), forall|i: int| 0 <= i < p ==> s[i].v() < x, forall|i: int| p <= i < s.len() ==> s[i].v() >= x,
    ensures below(s, x) == p,
    decreases s.len(),
{
    if s.len() > 0 { lemma_below_is(s.drop_last(), x, if p == s.len() { p - 1 } else { p }); }
}

pub trait LoadCounter<K: Key> {
    /// the keys it counts
    spec fn keys(&self) -> Seq<K>;
    spec fn wf(&self) -> bool;
    spec fn min(&self) -> int;
    spec fn max(&self) -> int;
    /// the smallest and the largest key are what they are called; the largest has a next
    proof fn range(&self)
        requires self.wf(),
        ensures
            self.keys().len() <= u64::MAX,
            self.min() <= self.max(),
            forall|i: int| 0 <= i < self.keys().len() ==> self.min() <= (#[trigger] self.keys()[i]).v() <= self.max();
    fn load_in_range(&mut self, start: K, end: K) -> (r: Work)
        requires old(self).wf(), start.v() <= end.v(),
        ensures final(self).wf(), final(self).keys() == old(self).keys(), final(self).min() == old(self).min(), final(self).max() == old(self).max(),
            r == below(old(self).keys(), end.v()) - below(old(self).keys(), start.v());
    fn min_key(&mut self) -> (r: K)
        requires old(self).wf(),
        ensures r.v() == old(self).min(), final(self).wf(), final(self).keys() == old(self).keys(), final(self).min() == old(self).min(), final(self).max() == old(self).max();
    fn max_key(&mut self) -> (r: K)
        requires old(self).wf(),
        ensures r.v() == old(self).max(), final(self).wf(), final(self).keys() == old(self).keys(), final(self).min() == old(self).min(), final(self).max() == old(self).max();
    //@ extract src/domain/decomposition.rs :: trait LoadCounter :: fn total_load
    //@ ret r
    //@ spec
        requires old(self).wf(), old(self).max() < K::top(),
        ensures final(self).wf(), final(self).keys() == old(self).keys(), final(self).min() == old(self).min(), final(self).max() == old(self).max(),
            r == old(self).keys().len(),
    //@ entry
        proof {
            self.range();
            lemma_below_is(self.keys(), self.min(), 0);
            lemma_below_is(self.keys(), self.max() + 1, self.keys().len() as int);
        }
    //@ end
}

//@ extract src/domain/decomposition.rs :: struct KeyCounter
//@ end
/// assumed of Vec::sort: the same keys, in ascending order
#[verifier::external_body]
fn vx_sort<K: Key>(v: &mut Vec<K>)
    ensures sorted(final(v)@), final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len(), { v.sort() }
impl<K: Key> KeyCounter<K> {
    pub closed spec fn same(&self, o: Seq<K>) -> bool { self.keys@.to_multiset() == o.to_multiset() }
    //@ extract src/domain/decomposition.rs :: impl<K: Key> KeyCounter<K> :: fn new
    //@ rewrite 1 `mut keys: Vec<K>` => `keys: Vec<K>`
    //@ rewrite 1 `keys.sort()` => `vx_sort(&mut keys)`
    //@ rewrite * `keys.sort_unstable()` => `vx_sort(&mut keys)`
    //@ ret r
    //@ spec
        requires 0 < keys@.len() <= u64::MAX,
        ensures r.wf(), r.same(keys@), r.keys().len() == keys@.len(),
    //@ entry
        let mut keys = keys;
    //@ end
}
impl<K: Key> LoadCounter<K> for KeyCounter<K> {
    closed spec fn keys(&self) -> Seq<K> { self.keys@ }
    closed spec fn wf(&self) -> bool { sorted(self.keys@) && 0 < self.keys@.len() <= u64::MAX }
    closed spec fn min(&self) -> int { self.keys@[0].v() }
    closed spec fn max(&self) -> int { self.keys@.last().v() }
    proof fn range(&self) {}
    //@ extract src/domain/decomposition.rs :: impl<K: Key> LoadCounter<K> for KeyCounter<K> :: fn load_in_range
    //@ rewrite * `self.keys.partition_point(|$i_k| *$i_k < $x)` => `vx_partition_point(self.keys.as_slice(), |$i_k: &K| -> (b: bool) ensures b == ($i_k.v() < $x.v()) { proof { K::ordered(*$i_k, $x); } *$i_k < $x }, Ghost(|k: K| k.v() < $x.v()))`
    //@ rewrite * `self.keys.partition_point(|$i_k| *$i_k <= $x)` => `vx_partition_point(self.keys.as_slice(), |$i_k: &K| -> (b: bool) ensures b == ($i_k.v() <= $x.v()) { proof { K::ordered(*$i_k, $x); } *$i_k <= $x }, Ghost(|k: K| k.v() <= $x.v()))`
    //@ entry
        let ghost (lo, hi) = (start.v(), end.v());
        let ghost ks = self.keys@;
    //@ before `end as u64 - start as u64`
        proof {
            lemma_below_mono(ks, lo, hi);
            if forall|i: int| 0 <= i < start ==> ks[i].v() < lo { if forall|i: int| start <= i < ks.len() ==> ks[i].v() >= lo { lemma_below_is(ks, lo, start as int); } }
            if forall|i: int| 0 <= i < end ==> ks[i].v() < hi { if forall|i: int| end <= i < ks.len() ==> ks[i].v() >= hi { lemma_below_is(ks, hi, end as int); } }
        }
    //@ end
    //@ extract src/domain/decomposition.rs :: impl<K: Key> LoadCounter<K> for KeyCounter<K> :: fn min_key
    //@ rewrite * `self.keys.iter().min()` => `vx_extreme(&self.keys, true)`
    //@ rewrite * `self.keys.iter().max()` => `vx_extreme(&self.keys, false)`
    //@ end
    //@ extract src/domain/decomposition.rs :: impl<K: Key> LoadCounter<K> for KeyCounter<K> :: fn max_key
    //@ rewrite * `self.keys.iter().min()` => `vx_extreme(&self.keys, true)`
    //@ rewrite * `self.keys.iter().max()` => `vx_extreme(&self.keys, false)`
    //@ end
}

// ------------------------------------------------------------------------------------ cuts
//@ extract src/domain/decomposition.rs :: struct Segment
//@ end
/// what the search is told about a cut; only that it ends at the greatest depth is used here (see get_search_result)
#[verifier::external_body]
fn vx_told<K: Key>(depth: usize) -> (r: Ordering) ensures depth == K::depth() ==> r == Ordering::Equal { unimplemented!() }

//@ extract src/domain/decomposition.rs :: fn binary_search
//@ rewrite 1 `mut eval: impl FnMut(T, usize) -> Ordering,` => ``
//@ rewrite * `eval(pos, depth)` => `vx_told::<T>(depth)`
//@ rewrite * `, eval,` => `,`
//@ ret r
//@ spec
    requires start.v() <= end.v(), depth <= T::depth(), T::depth() < 1000,
    ensures start.v() <= r.v() <= end.v(),
    decreases T::depth() - depth,
//@ end

//@ extract src/domain/decomposition.rs :: struct Decomposer
//@ end
/// the counter still counts the same keys
spec fn same<K: Key, C: LoadCounter<K>>(a: &C, b: &C) -> bool { a.wf() && a.keys() == b.keys() && a.min() == b.min() && a.max() == b.max() }
spec fn cuts_of<K>(s: Seq<Segment<K>>) -> Seq<K> { s.map_values(|x: Segment<K>| x.end) }
/// the segments follow each other without a gap, from the smallest key to just beyond the largest
spec fn tiled<K: Key>(s: Seq<Segment<K>>, min: int) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).start.v() <= s[i].end.v()
    &&& forall|i: int| 0 < i < s.len() ==> (#[trigger] s[i]).start.v() == s[i - 1].end.v()
    &&& s.len() > 0 ==> s[0].start.v() == min
}
impl<'a, K: Key, C: LoadCounter<K>> Decomposer<'a, K, C> {
    //@ extract src/domain/decomposition.rs :: impl<'a, K: Key, C: LoadCounter<K>> Decomposer<'a, K, C> :: fn get_search_result
    //@ rewrite * `K::MAX_DEPTH` => `K::vx_max_depth()`
    //@ ret r
    //@ spec
        ensures depth == K::depth() ==> r == Ordering::Equal,
    //@ end
    //@ extract src/domain/decomposition.rs :: impl<'a, K: Key, C: LoadCounter<K>> Decomposer<'a, K, C> :: fn find_cut_for_next_segment
    //@ rewrite * `let $i_f = |$i_c, $i_d| { let load = self.counter.load_in_range(start, $i_c); self.get_search_result(load, $i_d) };` => ``
    //@ rewrite 1 `binary_search(start, $e, $i_f, 0)` => `binary_search(start, $e, 0)`
    //@ ret r
    //@ spec
        requires old(self).counter.wf(), old(self).counter.min() <= start.v() <= old(self).counter.max(), K::depth() < 1000,
        ensures
            start.v() <= r.v() <= old(self).counter.max(),
            same(&*final(self).counter, &*old(self).counter), final(self).num_segments == old(self).num_segments, final(self).load_per_segment == old(self).load_per_segment,
    //@ end
    //@ extract src/domain/decomposition.rs :: impl<'a, K: Key, C: LoadCounter<K>> Decomposer<'a, K, C> :: fn find_segments
    //@ rewrite * `vec![]` => `Vec::<Segment<K>>::new()`
    //@ rewrite * `for _ in` => `for vx_i in`
    //@ loops 1
    //@ ret r
    //@ spec
        requires old(self).counter.wf(), old(self).num_segments > 0, K::depth() < 1000, old(self).counter.max() < K::top(),
        ensures
            r@.len() == old(self).num_segments, tiled(r@, old(self).counter.min()), r@.last().end.v() == old(self).counter.max() + 1,
            same(&*final(self).counter, &*old(self).counter), final(self).num_segments == old(self).num_segments,
    //@ entry
        proof { self.counter.range(); }
    //@ loop 0 spec
            invariant
                same(&*self.counter, &*old(self).counter), self.num_segments == old(self).num_segments, K::depth() < 1000, self.counter.wf(),
                segments@.len() == vx_i, tiled(segments@, old(self).counter.min()),
                start.v() == (if vx_i == 0 { old(self).counter.min() } else { segments@.last().end.v() }),
                old(self).counter.min() <= start.v() <= old(self).counter.max(),
    //@ end
    //@ extract src/domain/decomposition.rs :: impl<'a, K: Key, C: LoadCounter<K>> Decomposer<'a, K, C> :: fn get_loads
    //@ rewrite 1 `segments.iter().map(|$i_s| $e).collect()` => `{ let mut vx_out: Vec<Work> = Vec::new(); for $i_s in vx_it: segments.iter() invariant self.counter.wf(), same(&*self.counter, &*old(self).counter), self.num_segments == old(self).num_segments, tiled(segments@, old(self).counter.min()), loads_ok(vx_out@, segments@.take(vx_it.index@ as int), old(self).counter.keys()) { proof { assert(segments@[vx_it.index@ as int].start.v() <= segments@[vx_it.index@ as int].end.v()); } let vx_x = $e; vx_out.push(vx_x); } proof { lemma_take_all(segments@); } vx_out }`
    //@ ret r
    //@ spec
        requires old(self).counter.wf(), tiled(segments@, old(self).counter.min()),
        ensures loads_ok(r@, segments@, old(self).counter.keys()), same(&*final(self).counter, &*old(self).counter), final(self).num_segments == old(self).num_segments,
    //@ end
}
proof fn lemma_take_all<T>(s: Seq<T>) ensures s.take(s.len() as int) == s { assert(s.take(s.len() as int) =~= s); }
spec fn loads_ok<K: Key>(l: Seq<Work>, s: Seq<Segment<K>>, keys: Seq<K>) -> bool {
    l.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] l[i] == below(keys, s[i].end.v()) - below(keys, s[i].start.v())
}

fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }

// ------------------------------------------------------------------------------------ the decomposition
//@ extract src/domain/decomposition.rs :: struct Decomposition
//@ end
/// where segment i starts, given where the first one does
spec fn start_of<K: Key>(d: Decomposition<K>, i: int, min: int) -> int { if i <= 0 { min } else { d.cuts@[i - 1].v() } }
impl<K: Key> Decomposition<K> {
    /// one cut and one load per rank, the cuts ascending
    spec fn wf(&self) -> bool {
        &&& 0 < self.num_ranks <= i32::MAX
        &&& self.cuts@.len() == self.num_ranks && self.loads@.len() == self.num_ranks
        &&& sorted(self.cuts@)
    }
    /// it divides these keys: every segment's load is the number of its keys, and the last segment ends just beyond the largest key
    spec fn divides(&self, keys: Seq<K>, min: int, max: int) -> bool {
        &&& self.wf()
        &&& forall|i: int| 0 <= i < self.num_ranks ==> #[trigger] self.loads@[i] == below(keys, self.cuts@[i].v()) - below(keys, start_of(*self, i, min))
        &&& min <= self.cuts@[0].v() && self.cuts@.last().v() == max + 1
    }
    /// the rank a key belongs to: the one whose segment contains it (keys beyond the last cut: the last)
    spec fn owner(&self, key: K, r: int) -> bool {
        0 <= r < self.num_ranks && (r > 0 ==> self.cuts@[r - 1].v() <= key.v()) && (r < self.num_ranks - 1 ==> key.v() < self.cuts@[r].v())
    }
    //@ extract src/domain/decomposition.rs :: impl<K: Key> Decomposition<K> :: fn new
    //@ rewrite * `vec![]` => `Vec::new()`
    //@ rewrite 1 `segments.iter().map(|$i_s| $e).collect()` => `{ let mut vx_out: Vec<K> = Vec::new(); for $i_s in vx_it: segments.iter() invariant vx_out@ == cuts_of(segments@.take(vx_it.index@ as int)) { let vx_x = $e; vx_out.push(vx_x); proof { lemma_cuts_push(segments@, vx_it.index@ as int); } } proof { lemma_take_all(segments@); } vx_out }`
    //@ ret r
    //@ spec
        requires old(counter).wf(), 0 < num_ranks <= i32::MAX, old(counter).max() < K::top(), K::depth() < 1000,
        ensures
            r.divides(old(counter).keys(), old(counter).min(), old(counter).max()),
    //@ after `let segments = dd.find_segments();`
        proof { lemma_segments(segments@, old(counter).min()); }
    //@ end
    //@ extract src/domain/decomposition.rs :: impl<K: Key> Decomposition<K> :: fn get_owning_rank
    //@ rewrite * `self.cuts.partition_point(|$i_k| *$i_k < $x)` => `vx_partition_point(self.cuts.as_slice(), |$i_k: &K| -> (b: bool) ensures b == ($i_k.v() < $x.v()) { proof { K::ordered(*$i_k, $x); } *$i_k < $x }, Ghost(|k: K| k.v() < $x.v()))`
    //@ rewrite * `self.cuts.partition_point(|$i_k| *$i_k <= $x)` => `vx_partition_point(self.cuts.as_slice(), |$i_k: &K| -> (b: bool) ensures b == ($i_k.v() <= $x.v()) { proof { K::ordered(*$i_k, $x); } *$i_k <= $x }, Ghost(|k: K| k.v() <= $x.v()))`
    //@ rewrite * `segment.min($e)` => `vx_min(segment, $e)`
    //@ ret r
    //@ spec
        requires self.wf(),
        ensures self.owner(key, r as int),
    //@ end
}
proof fn lemma_segments<K: Key>(s: Seq<Segment<K>>, min: int)
    requires tiled(s, min),
    ensures sorted(cuts_of(s)), cuts_of(s).len() == s.len(), s.len() > 0 ==> min <= cuts_of(s)[0].v() && cuts_of(s).last() == s.last().end,
        forall|i: int| 0 < i < s.len() ==> (#[trigger] s[i]).start.v() == cuts_of(s)[i - 1].v(),
{
    let c = cuts_of(s);
    assert forall|i: int, j: int| 0 <= i <= j < c.len() implies c[i].v() <= c[j].v() by { lemma_ascending(s, min, i, j); }
}
proof fn lemma_ascending<K: Key>(s: Seq<Segment<K>>, min: int, i: int, j: int)
    requires tiled(s, min), 0 <= i <= j < s.len(),
    ensures s[i].end.v() <= s[j].end.v(),
    decreases j - i,
{
    if i < j {
        lemma_ascending(s, min, i, j - 1);
        assert(s[j].start.v() == s[j - 1].end.v());
        assert(s[j].start.v() <= s[j].end.v());
    }
}
proof fn lemma_cuts_push<K>(s: Seq<Segment<K>>, i: int)
    requires 0 <= i < s.len(),
    ensures cuts_of(s.take(i + 1)) == cuts_of(s.take(i)).push(s[i].end),
{
    assert(cuts_of(s.take(i + 1)) =~= cuts_of(s.take(i)).push(s[i].end));
}

// ------------------------------------------------------------------------------------ what follows from the contracts
/// there is exactly one owner
proof fn theorem_one_owner<K: Key>(d: Decomposition<K>, key: K, a: int, b: int)
    requires d.wf(), d.owner(key, a), d.owner(key, b),
    ensures a == b,
{
}
/// the loads add up to the number of keys
spec fn loads_upto(l: Seq<Work>, n: int) -> int decreases n { if n <= 0 { 0 } else { loads_upto(l, n - 1) + l[n - 1] } }
proof fn theorem_loads_add_up<K: Key>(d: Decomposition<K>, keys: Seq<K>, min: int, max: int)
    requires d.divides(keys, min, max), forall|i: int| 0 <= i < keys.len() ==> min <= (#[trigger] keys[i]).v() <= max,
    ensures loads_upto(d.loads@, d.num_ranks as int) == keys.len(),
{
    lemma_loads_upto(d, keys, min, max, d.num_ranks as int);
    lemma_below_is(keys, min, 0);
    lemma_below_is(keys, max + 1, keys.len() as int);
}
proof fn lemma_loads_upto<K: Key>(d: Decomposition<K>, keys: Seq<K>, min: int, max: int, n: int)
    requires d.divides(keys, min, max), 0 <= n <= d.num_ranks,
    ensures loads_upto(d.loads@, n) == below(keys, start_of(d, n, min)) - below(keys, min),
    decreases n,
{
    if n > 0 {
        lemma_loads_upto(d, keys, min, max, n - 1);
        let _ = d.loads@[n - 1];
    }
}
/// the load of a segment is the number of keys its rank owns
spec fn owned<K: Key>(d: Decomposition<K>, keys: Seq<K>, r: int) -> nat decreases keys.len() {
    if keys.len() == 0 { 0 } else { owned(d, keys.drop_last(), r) + (if d.owner(keys.last(), r) { 1nat } else { 0nat }) }
}
proof fn theorem_load_is_owned<K: Key>(d: Decomposition<K>, keys: Seq<K>, min: int, max: int, r: int)
    requires d.divides(keys, min, max), forall|i: int| 0 <= i < keys.len() ==> min <= (#[trigger] keys[i]).v() <= max, 0 <= r < d.num_ranks,
    ensures d.loads@[r] == owned(d, keys, r),
{
    lemma_owned(d, keys, min, max, r);
}
proof fn lemma_owned<K: Key>(d: Decomposition<K>, keys: Seq<K>, min: int, max: int, r: int)
    requires d.wf(), min <= d.cuts@[0].v(), d.cuts@.last().v() == max + 1, forall|i: int| 0 <= i < keys.len() ==> min <= (#[trigger] keys[i]).v() <= max, 0 <= r < d.num_ranks,
    ensures owned(d, keys, r) == below(keys, d.cuts@[r].v()) - below(keys, start_of(d, r, min)),
    decreases keys.len(),
{
    if keys.len() > 0 {
        let k = keys.last();
        assert(min <= k.v() <= max) by { let _ = keys[keys.len() - 1]; }
        assert forall|i: int| 0 <= i < keys.drop_last().len() implies min <= (#[trigger] keys.drop_last()[i]).v() <= max by { let _ = keys[i]; }
        lemma_owned(d, keys.drop_last(), min, max, r);
        assert(start_of(d, r, min) <= d.cuts@[r].v());
        assert(r == d.num_ranks - 1 ==> d.cuts@[r].v() == max + 1);
    }
}
}
fn main() {}
