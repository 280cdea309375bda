use vstd::prelude::*;
verus! {
type Rank = i32;
//@ include ../vx_helpers.rs
//@ extract src/communication/data_by_rank.rs :: struct DataByRank
//@ end
//@ extract src/communication/data_by_rank.rs :: struct IntoIter
//@ end

// ---------------------------------------------------------------- specification: a map from rank to value
spec fn at<T>(d: DataByRank<T>, r: int) -> Option<T> { if 0 <= r < d.0@.len() { d.0@[r] } else { None } }
/// the container after inserting v for rank r
spec fn updated<T>(a: DataByRank<T>, b: DataByRank<T>, r: int, v: Option<T>) -> bool {
    &&& at(b, r) == v
    &&& forall|q: int| q != r ==> #[trigger] at(b, q) == at(a, q)
    &&& b.0@.len() >= a.0@.len()
}
spec fn size_ok<T>(d: DataByRank<T>) -> bool { d.0@.len() <= i32::MAX }

impl<T> DataByRank<T> {
//@ extract src/communication/data_by_rank.rs :: impl<T> DataByRank<T> :: fn empty
//@ ret res
//@ spec
    ensures forall|q: int| at(res, q) is None, res.0@.len() == 0,
//@ end
//@ extract src/communication/data_by_rank.rs :: impl<T> DataByRank<T> :: fn get
//@ ret res
//@ spec
    requires 0 <= *rank < self.0@.len(),
    ensures res == (match at(*self, *rank as int) { Some(v) => Some(&v), None => None }),
//@ end
//@ extract src/communication/data_by_rank.rs :: impl<T> DataByRank<T> :: fn remove
//@ ret res
//@ spec
    requires 0 <= *rank < old(self).0@.len(),
    ensures
        res == at(*old(self), *rank as int),
        updated(*old(self), *final(self), *rank as int, None),
        final(self).0@.len() == old(self).0@.len(),
//@ end
//@ extract src/communication/data_by_rank.rs :: impl<T> DataByRank<T> :: fn insert
//@ spec
    requires rank >= 0, size_ok(*old(self)),
    ensures updated(*old(self), *final(self), rank as int, Some(data)), size_ok(*final(self)) || rank == i32::MAX,
//@ entry
    let ghost s0 = *self;
    let ghost r0 = rank;
//@ exit
    proof { assert forall|q: int| q != r0 implies #[trigger] at(*self, q) == at(s0, q) by { assert(at(mid, q) == at(s0, q)); } }
//@ before `self.0[$i] = $e;`
    let ghost mid = *self;
//@ end
//@ extract src/communication/data_by_rank.rs :: impl<T> DataByRank<T> :: fn extend
//@ rewrite * `for _ in` => `for vx_i in`
//@ loops 1
//@ spec
    ensures
        final(self).0@.len() == old(self).0@.len() + num,
        forall|q: int| #[trigger] at(*final(self), q) == at(*old(self), q),
//@ entry
    let ghost s0 = *self;
//@ loop 0 spec
        invariant
            self.0@.len() == s0.0@.len() + vx_i,
            forall|q: int| #[trigger] at(*self, q) == at(s0, q),
//@ loop 0 start
        let ghost prev = *self;
//@ loop 0 end
        proof { assert forall|q: int| #[trigger] at(*self, q) == at(s0, q) by { assert(at(prev, q) == at(s0, q)); } }
//@ end
}
impl<T> DataByRank<T> {
//@ extract src/communication/data_by_rank.rs :: impl<T> DataByRank<T> :: fn from_closure_size_and_rank
//@ rewrite 1 `(0..$n).map(|$i_r| { $e }).collect()` => `vx_map_range(0, $n, |$i_r: usize| -> (o: Option<T>) requires f.requires(()) ensures ($i_r as Rank == this_rank) == (o is None), (match o { Some(v) => f.ensures((), v), None => true }) { $e })`
//@ ret res
//@ spec
    requires f.requires(()), size <= i32::MAX,
    ensures
        res.0@.len() == size,
        forall|q: int| 0 <= q < size ==> (#[trigger] at(res, q) is None) == (q == this_rank),
        forall|q: int| 0 <= q < size && q != this_rank ==> f.ensures((), #[trigger] at(res, q)->0),
//@ end
}
impl<T> IntoIter<T> {
//@ extract src/communication/data_by_rank.rs :: impl<T> IntoIter<T> :: fn new
//@ ret res
//@ spec
    ensures res.data == data, res.cursor == 0,
//@ end
}
/// what an iterator still has to yield: the stored values from the cursor on
spec fn iter_ok<T>(it: IntoIter<T>) -> bool { 0 <= it.cursor && size_ok(it.data) && it.cursor <= it.data.0@.len() }
impl<T> IntoIter<T> {
//@ extract src/communication/data_by_rank.rs :: impl<T> Iterator for IntoIter<T> :: fn next
//@ rewrite * `Self::Item` => `(Rank, T)`
//@ ret res
//@ loops 1
//@ spec
    requires iter_ok(*old(self)),
    ensures
        iter_ok(*final(self)),
        final(self).data.0@.len() == old(self).data.0@.len(),
        match res {
            // the next stored value with its rank; nothing between it and the old cursor
            Some((r, v)) => old(self).cursor <= r && at(old(self).data, r as int) == Some(v) && final(self).cursor == r + 1
                && (forall|q: int| old(self).cursor <= q < r ==> #[trigger] at(old(self).data, q) is None),
            None => forall|q: int| old(self).cursor <= q ==> #[trigger] at(old(self).data, q) is None,
        },
        // what comes later is untouched
        forall|q: int| final(self).cursor <= q ==> #[trigger] at(final(self).data, q) == at(old(self).data, q),
//@ entry
    let ghost s0 = *self;
//@ loop 0 spec
        invariant
            iter_ok(*self), iter_ok(s0), s0 == *old(self),
            s0.cursor <= self.cursor,
            self.data.0@.len() == s0.data.0@.len(),
            forall|q: int| s0.cursor <= q < self.cursor ==> #[trigger] at(s0.data, q) is None,
            forall|q: int| self.cursor <= q ==> #[trigger] at(self.data, q) == at(s0.data, q),
        decreases self.data.0@.len() - self.cursor,
//@ end
}
// ---------------------------------------------------------------- lemmas over the contracts
/// Iterating to the end yields exactly the stored values, in ascending order of rank.
spec fn yields<T>(d: DataByRank<T>, from: int, out: Seq<(Rank, T)>) -> bool decreases out.len() {
    if out.len() == 0 { forall|q: int| from <= q ==> #[trigger] at(d, q) is None }
    else {
        let (r, v) = out[0];
        from <= r && at(d, r as int) == Some(v) && (forall|q: int| from <= q < r ==> #[trigger] at(d, q) is None) && yields(d, r + 1, out.drop_first())
    }
}
proof fn lemma_yields<T>(d: DataByRank<T>, from: int, out: Seq<(Rank, T)>)
    requires yields(d, from, out), from >= 0,
    ensures
        forall|i: int, j: int| 0 <= i < j < out.len() ==> out[i].0 < out[j].0,
        forall|i: int| 0 <= i < out.len() ==> #[trigger] out[i].0 >= from && at(d, out[i].0 as int) == Some(out[i].1),
        forall|q: int| from <= q && #[trigger] at(d, q) is Some ==> exists|i: int| 0 <= i < out.len() && out[i].0 == q,
    decreases out.len(),
{
    if out.len() > 0 {
        let rest = out.drop_first();
        lemma_yields(d, out[0].0 + 1, rest);
        assert forall|i: int| 0 < i < out.len() implies out[i] == #[trigger] rest[i - 1] by {}
        assert forall|i: int, j: int| 0 <= i < j < out.len() implies out[i].0 < out[j].0 by {
            assert(out[j] == rest[j - 1]);
            if i > 0 { assert(out[i] == rest[i - 1]); }
        }
        assert forall|i: int| 0 <= i < out.len() implies #[trigger] out[i].0 >= from && at(d, out[i].0 as int) == Some(out[i].1) by {
            if i > 0 { assert(out[i] == rest[i - 1]); }
        }
        assert forall|q: int| from <= q && #[trigger] at(d, q) is Some implies exists|i: int| 0 <= i < out.len() && out[i].0 == q by {
            if q > out[0].0 {
                let i = choose|i: int| 0 <= i < rest.len() && rest[i].0 == q;
                assert(out[i + 1].0 == q);
            } else {
                assert(out[0].0 == q);
            }
        }
    }
}
/// Draining the iterator with the verified `next`: its contract gives `yields`.
fn drain_all_values<T>(d: DataByRank<T>) -> (out: Vec<(Rank, T)>)
    requires size_ok(d),
    ensures yields(d, 0, out@),
{
    let mut it = IntoIter::new(d);
    let mut out: Vec<(Rank, T)> = Vec::new();
    let ghost d0 = d;
    proof { assert(yields_upto(d0, 0, out@, 0)); }
    loop
        invariant_except_break
            iter_ok(it),
            yields_upto(d0, 0, out@, it.cursor as int),
            forall|q: int| it.cursor <= q ==> #[trigger] at(it.data, q) == at(d0, q),
            it.data.0@.len() == d0.0@.len(),
        ensures yields(d0, 0, out@),
        decreases it.data.0@.len() - it.cursor,
    {
        let ghost it0 = it;
        match it.next() {
            Some(x) => {
                proof {
                    assert forall|q: int| it0.cursor <= q < x.0 implies #[trigger] at(d0, q) is None by { assert(at(it0.data, q) == at(d0, q)); }
                    assert(at(d0, x.0 as int) == at(it0.data, x.0 as int));
                    lemma_yields_push(d0, 0, out@, it0.cursor as int, x);
                }
                out.push(x);
            }
            None => {
                proof {
                    assert forall|q: int| it0.cursor <= q implies #[trigger] at(d0, q) is None by { assert(at(it0.data, q) == at(d0, q)); }
                    lemma_yields_end(d0, 0, out@, it0.cursor as int);
                }
                break;
            }
        }
    }
    out
}
spec fn yields_upto<T>(d: DataByRank<T>, from: int, out: Seq<(Rank, T)>, to: int) -> bool decreases out.len() {
    if out.len() == 0 { from <= to && forall|q: int| from <= q < to ==> #[trigger] at(d, q) is None }
    else {
        let (r, v) = out[0];
        from <= r && at(d, r as int) == Some(v) && (forall|q: int| from <= q < r ==> #[trigger] at(d, q) is None) && yields_upto(d, r + 1, out.drop_first(), to)
    }
}
proof fn lemma_yields_push<T>(d: DataByRank<T>, from: int, out: Seq<(Rank, T)>, to: int, x: (Rank, T))
    requires yields_upto(d, from, out, to), to <= x.0, at(d, x.0 as int) == Some(x.1), forall|q: int| to <= q < x.0 ==> #[trigger] at(d, q) is None,
    ensures yields_upto(d, from, out.push(x), x.0 + 1),
    decreases out.len(),
{
    reveal_with_fuel(yields_upto, 3);
    if out.len() == 0 {
        assert(out.push(x).drop_first() =~= Seq::empty());
        assert(out.push(x)[0] == x);
    } else {
        lemma_yields_push(d, out[0].0 + 1, out.drop_first(), to, x);
        assert(out.push(x).drop_first() =~= out.drop_first().push(x));
    }
}
proof fn lemma_yields_end<T>(d: DataByRank<T>, from: int, out: Seq<(Rank, T)>, to: int)
    requires yields_upto(d, from, out, to), forall|q: int| to <= q ==> #[trigger] at(d, q) is None,
    ensures yields(d, from, out),
    decreases out.len(),
{
    if out.len() > 0 { lemma_yields_end(d, out[0].0 + 1, out.drop_first(), to); }
}
}
fn main() {}
