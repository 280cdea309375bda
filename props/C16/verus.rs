use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use std::ops::Range;
verus! {
//@ include ../vx_helpers.rs

pub open spec fn ceil(x: int, y: int) -> int { x / y + if x % y > 0 { 1int } else { 0int } }

/// ceil(x, y) pieces of at most y cover x, and one fewer do not
pub proof fn ceil_covers(x: int, y: int)
    requires x >= 0, y > 0
    ensures ceil(x, y) >= 0, ceil(x, y) * y >= x, x > 0 ==> (ceil(x, y) - 1) * y < x, ceil(x, y) <= x, (ceil(x, y) == 0) == (x == 0)
{
    lemma_fundamental_div_mod(x, y);
    let q = x / y; let r = x % y;
    assert(0 <= r < y) by { lemma_mod_bound(x, y); }
    assert(q >= 0) by { lemma_div_pos_is_pos(x, y); }
    assert(y * q + r == x);
    assert((q + 1) * y == y * q + y && (q - 1) * y == y * q - y && q * y == y * q) by (nonlinear_arith);
    if r > 0 { assert(q <= y * q) by (nonlinear_arith) requires q >= 0, y >= 1; } else { assert(q <= y * q) by (nonlinear_arith) requires q >= 0, y >= 1; }
    if q == 0 && r == 0 { assert(x == 0) by (nonlinear_arith) requires y * q + r == x, q == 0, r == 0; }
    if x == 0 { assert(q == 0 && r == 0) by (nonlinear_arith) requires y * q + r == 0, y >= 1, q >= 0, r >= 0; }
}
/// usize::rem_euclid is %
pub fn vx_rem(a: usize, b: usize) -> (r: usize) requires b > 0 ensures r == a % b { a % b }
/// usize::min
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }

//@ extract src/communication/exchange_communicator.rs :: fn div_ceil
//@ rewrite * `x.rem_euclid(y)` => `vx_rem(x, y)`
//@ ret n
//@ spec
    requires y > 0
    ensures n == ceil(x as int, y as int)
//@ entry
    proof { ceil_covers(x as int, y as int); lemma_div_is_ordered_by_denominator(x as int, 1, y as int); lemma_div_basics(x as int); }
//@ end

// ---- reading in chunks --------------------------------------------------------------------------------
//@ extract src/io/file_distribution.rs :: struct Region
//@ end
impl Region {
    //@ extract src/io/file_distribution.rs :: impl Region :: fn size
    //@ ret n
    //@ spec
        requires self.start <= self.end
        ensures n == self.end - self.start
    //@ end
}

pub open spec fn chunk(region: Region, chunk_size: int, i: int) -> (int, int) {
    (region.start + i * chunk_size, if region.start + (i + 1) * chunk_size <= region.end { region.start + (i + 1) * chunk_size } else { region.end as int })
}
pub open spec fn fits(region: Region, y: int, i: int) -> bool { region.start + (i + 1) * y <= usize::MAX && i < usize::MAX }
/// the property: chunks of at most chunk_size elements, none empty, one after the other from start to end
pub open spec fn covers(v: Seq<Range<usize>>, region: Region, chunk_size: int) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).start < v[i].end && v[i].end - v[i].start <= chunk_size
    &&& forall|i: int| 0 < i < v.len() ==> (#[trigger] v[i]).start == v[i - 1].end
    &&& v.len() == 0 <==> region.start == region.end
    &&& v.len() > 0 ==> v[0].start == region.start && v.last().end == region.end
}
pub proof fn chunks_cover(v: Seq<Range<usize>>, region: Region, chunk_size: int)
    requires
        region.start <= region.end, chunk_size > 0, v.len() == ceil(region.end - region.start, chunk_size),
        forall|i: int| 0 <= i < v.len() ==> ((#[trigger] v[i]).start as int, v[i].end as int) == chunk(region, chunk_size, i),
    ensures covers(v, region, chunk_size)
{
    let x = region.end - region.start;
    ceil_covers(x, chunk_size);
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).start < v[i].end && v[i].end - v[i].start <= chunk_size by {
        assert((i + 1) * chunk_size == i * chunk_size + chunk_size) by (nonlinear_arith);
        assert(i * chunk_size <= (v.len() - 1) * chunk_size) by (nonlinear_arith) requires i <= v.len() - 1, chunk_size > 0;
    }
    assert forall|i: int| 0 < i < v.len() implies (#[trigger] v[i]).start == v[i - 1].end by {
        let p = v[i - 1];
        assert(i * chunk_size <= (v.len() - 1) * chunk_size) by (nonlinear_arith) requires i <= v.len() - 1, chunk_size > 0;
        assert(i - 1 + 1 == i);
    }
    if v.len() > 0 {
        let l = v[v.len() - 1];
        assert(v.len() - 1 + 1 == v.len());
        let f = v[0];
        assert(0 * chunk_size == 0) by (nonlinear_arith);
    }
}
/// then every element is in exactly one chunk
pub proof fn element_in_one_chunk(v: Seq<Range<usize>>, region: Region, chunk_size: int, e: int)
    requires covers(v, region, chunk_size), region.start <= e < region.end
    ensures
        exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).start <= e < v[i].end,
        forall|i: int, j: int| 0 <= i < j < v.len() && (#[trigger] v[i]).start <= e < v[i].end ==> !((#[trigger] v[j]).start <= e < v[j].end),
{
    find_chunk(v, region, chunk_size, e, v.len() - 1);
    assert forall|i: int, j: int| 0 <= i < j < v.len() && (#[trigger] v[i]).start <= e < v[i].end implies !((#[trigger] v[j]).start <= e < v[j].end) by {
        later_chunk(v, region, chunk_size, i, j);
    }
}
proof fn find_chunk(v: Seq<Range<usize>>, region: Region, chunk_size: int, e: int, k: int)
    requires covers(v, region, chunk_size), region.start <= e, 0 <= k < v.len(), e < v[k].end
    ensures exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).start <= e < v[i].end
    decreases k
{
    if e < v[k].start {
        assert(k > 0);
        assert(v[k].start == v[k - 1].end);
        find_chunk(v, region, chunk_size, e, k - 1);
    }
}
proof fn later_chunk(v: Seq<Range<usize>>, region: Region, chunk_size: int, i: int, j: int)
    requires covers(v, region, chunk_size), 0 <= i < j < v.len()
    ensures v[i].end <= v[j].start
    decreases j - i
{
    assert(v[j].start == v[j - 1].end);
    if i < j - 1 { later_chunk(v, region, chunk_size, i, j - 1); assert(v[j - 1].start < v[j - 1].end); }
}

//@ extract src/io/input/mod.rs :: fn get_chunk_sizes
//@ rewrite * `dataset_size.rem_euclid(chunk_size)` => `vx_rem(dataset_size, chunk_size)`
//@ rewrite 1 `($a).min($b)` => `vx_min($a, $b)`
//@ rewrite 1 `(0..$n).map(|$i_i| $e).collect()` => `vx_map_range(0, $n, |$i_i: usize| -> (r: Range<usize>) requires fits(*region, chunk_size as int, $i_i as int) ensures (r.start as int, r.end as int) == chunk(*region, chunk_size as int, $i_i as int) { proof { vx_mul($i_i as int, chunk_size as int); } $e })`
//@ ret v
//@ spec
    requires region.start <= region.end, chunk_size > 0, region.end + chunk_size <= usize::MAX
    ensures covers(v@, *region, chunk_size as int)
//@ entry
    proof {
        let x = region.end - region.start;
        ceil_covers(x, chunk_size as int);
        lemma_div_is_ordered_by_denominator(x, 1, chunk_size as int); lemma_div_basics(x);
        assert forall|i: usize| 0 <= i < ceil(x, chunk_size as int) implies #[trigger] fits(*region, chunk_size as int, i as int) by {
            vx_mul(i as int, chunk_size as int);
            let n = ceil(x, chunk_size as int) - 1;
            assert(i * chunk_size <= n * chunk_size) by (nonlinear_arith) requires i <= n, chunk_size > 0;
        }
        assert forall|v: Seq<Range<usize>>| #![trigger v.len()] v.len() == ceil(x, chunk_size as int) && (forall|i: int| 0 <= i < v.len() ==> ((#[trigger] v[i]).start as int, v[i].end as int) == chunk(*region, chunk_size as int, i)) implies covers(v, *region, chunk_size as int) by {
            chunks_cover(v, *region, chunk_size as int);
        }
    }
//@ end
pub proof fn vx_mul(i: int, y: int)
    ensures (i + 1) * y == i * y + y, i >= 0 && y >= 0 ==> 0 <= i * y
{
    assert((i + 1) * y == i * y + y) by (nonlinear_arith);
    if i >= 0 && y >= 0 { assert(0 <= i * y) by (nonlinear_arith) requires i >= 0, y >= 0; }
}

// ---- exchanging in rounds -----------------------------------------------------------------------------
// Communicator<usize>::all_gather_max: the largest of all ranks' values, the same on every rank (C04)
pub uninterp spec fn global_max(mine: int) -> int;
pub struct VxComm {}
impl VxComm {
    pub fn new() -> Self { VxComm {} }
    #[verifier::external_body]
    pub fn all_gather_max(&mut self, x: &usize) -> (r: Option<usize>)
        ensures r == Some(global_max(*x as int) as usize), *x <= global_max(*x as int) <= usize::MAX
    { unimplemented!() }
}
//@ extract src/communication/exchange_communicator.rs :: fn global_num_chunks
//@ rewrite * `Communicator<usize>` => `VxComm`
//@ rewrite * `Communicator::new()` => `VxComm::new()`
//@ ret n
//@ spec
    requires chunk_size > 0
    ensures n == global_max(ceil(num_elements as int, chunk_size as int)), n >= ceil(num_elements as int, chunk_size as int)
//@ end

/// slice::chunks: consecutive pieces of y elements, the last one shorter
pub open spec fn piece<T>(s: Seq<T>, y: int, i: int) -> Seq<T> { if i < ceil(s.len() as int, y) { s.subrange(i * y, if (i + 1) * y <= s.len() { (i + 1) * y } else { s.len() as int }) } else { Seq::empty() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxChunks<'a, T> { s: &'a [T] }
impl<'a, T> VxChunks<'a, T> {
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn size(&self) -> int;
    pub uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    pub fn new(s: &'a [T], y: usize) -> (r: Self) requires y > 0 ensures r.all() == s@, r.size() == y, r.at() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a [T]>)
        ensures
            final(self).all() == old(self).all(), final(self).size() == old(self).size(), final(self).at() == old(self).at() + 1,
            r.is_some() == (old(self).at() < ceil(old(self).all().len() as int, old(self).size())),
            r.is_some() ==> r.unwrap()@ == piece(old(self).all(), old(self).size(), old(self).at()),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_none<'a, T>() -> (r: &'a [T]) ensures r@ == Seq::<T>::empty() { &[] }

pub open spec fn rounds_are<T>(v: Seq<&[T]>, s: Seq<T>, y: int) -> bool { forall|j: int| 0 <= j < v.len() ==> (#[trigger] v[j])@ == piece(s, y, j) }

//@ extract src/communication/exchange_communicator.rs :: fn divide_into_chunks_with_same_num_globally
//@ rewrite 1 `<T>(` => `<'a, T>(`
//@ rewrite 1 `items: &[T]` => `items: &'a [T]`
//@ rewrite 1 `impl Iterator<Item = &[T]> + '_` => `Vec<&'a [T]>`
//@ rewrite 1 `$i_s.chunks($y)` => `VxChunks::new($i_s, $y)`
//@ rewrite 1 `&[]` => `vx_none()`
//@ rewrite 1 `(0..$i_n).map(move |_| $e)` => `{ let mut vx_out: Vec<&'a [T]> = Vec::new(); let mut vx_k: usize = 0; while vx_k < $i_n invariant vx_k <= $i_n, vx_out@.len() == vx_k, chunk_iter.at() == vx_k, chunk_iter.all() == items@, chunk_iter.size() == chunk_size, rounds_are(vx_out@, items@, chunk_size as int) decreases $i_n - vx_k { vx_out.push($e); vx_k = vx_k + 1; } vx_out }`
//@ ret v
//@ spec
    requires chunk_size > 0
    ensures
        v@.len() == global_max(ceil(items@.len() as int, chunk_size as int)),
        v@.len() >= ceil(items@.len() as int, chunk_size as int),
        forall|j: int| 0 <= j < v@.len() ==> (#[trigger] v@[j])@ == piece(items@, chunk_size as int, j),
//@ end
pub open spec fn joined<T>(s: Seq<T>, y: int, n: int) -> Seq<T> decreases n { if n <= 0 { Seq::empty() } else { joined(s, y, n - 1) + piece(s, y, n - 1) } }
/// the pieces of the rounds one after the other are the items, each at most the limit, and none of one's own is empty
pub proof fn rounds_cover<T>(s: Seq<T>, y: int, n: int)
    requires y > 0, n >= ceil(s.len() as int, y)
    ensures joined(s, y, n) == s, forall|i: int| 0 <= i ==> (#[trigger] piece(s, y, i)).len() <= y, forall|i: int| 0 <= i < ceil(s.len() as int, y) ==> (#[trigger] piece(s, y, i)).len() > 0
{
    ceil_covers(s.len() as int, y);
    joined_is(s, y, n);
    let c = ceil(s.len() as int, y);
    assert(c * y <= n * y) by (nonlinear_arith) requires c <= n, y > 0;
    assert(s.take(s.len() as int) =~= s);
    assert forall|i: int| 0 <= i implies (#[trigger] piece(s, y, i)).len() <= y by {
        vx_mul(i, y);
        if i < c { assert(i * y <= (c - 1) * y) by (nonlinear_arith) requires i <= c - 1, y > 0; }
    }
    assert forall|i: int| 0 <= i < c implies (#[trigger] piece(s, y, i)).len() > 0 by {
        vx_mul(i, y);
        assert(i * y <= (c - 1) * y) by (nonlinear_arith) requires i <= c - 1, y > 0;
    }
}
proof fn joined_is<T>(s: Seq<T>, y: int, n: int)
    requires y > 0, n >= 0
    ensures joined(s, y, n) == s.take(if n * y <= s.len() { n * y } else { s.len() as int })
    decreases n
{
    let len = s.len() as int;
    ceil_covers(len, y);
    if n > 0 {
        joined_is(s, y, n - 1);
        vx_mul(n - 1, y);
        let c = ceil(len, y);
        if n - 1 < c {
            assert((n - 1) * y <= (c - 1) * y) by (nonlinear_arith) requires n - 1 <= c - 1, y > 0;
            assert(joined(s, y, n) =~= s.take(if n * y <= len { n * y } else { len }));
        } else {
            assert(c * y <= (n - 1) * y) by (nonlinear_arith) requires c <= n - 1, y > 0;
            assert(joined(s, y, n) =~= s.take(len));
        }
    } else {
        assert(0 * y == 0) by (nonlinear_arith);
        assert(joined(s, y, n) =~= s.take(0));
    }
}
}
fn main() {}
