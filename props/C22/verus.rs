use vstd::prelude::*;
use vstd::std_specs::convert::{FromSpec, IntoSpec};
use std::marker::PhantomData;
verus! {

// ---- assumed contract of the dependency generational-arena 0.2 -------------------------------------
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Index { i: u64 }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Arena<T> { t: Vec<T> }
impl<T> Arena<T> {
    pub uninterp spec fn live(&self) -> Map<Index, T>;
    /// every index ever handed out
    pub uninterp spec fn issued(&self) -> Set<Index>;
    pub open spec fn wf(&self) -> bool { self.live().dom().subset_of(self.issued()) }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.live() == Map::<Index, T>::empty(), r.issued() == Set::<Index>::empty(), r.wf() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, t: T) -> (i: Index)
        requires old(self).wf(),
        ensures final(self).wf(), !old(self).issued().contains(i), final(self).issued() == old(self).issued().insert(i), final(self).live() == old(self).live().insert(i, t)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, i: Index) -> (r: Option<&T>)
        ensures self.live().dom().contains(i) ==> r == Some(&self.live()[i]), !self.live().dom().contains(i) ==> r.is_none()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, i: Index) -> (r: bool) ensures r == self.live().dom().contains(i) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.live().dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, i: Index) -> (r: Option<T>)
        requires old(self).wf(),
        ensures final(self).wf(), final(self).issued() == old(self).issued(), final(self).live() == old(self).live().remove(i),
            old(self).live().dom().contains(i) ==> r == Some(old(self).live()[i]), !old(self).live().dom().contains(i) ==> r.is_none()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, cap: usize) requires old(self).wf(), cap > 0 ensures final(self).wf(), final(self).live() == old(self).live(), final(self).issued() == old(self).issued() { unimplemented!() }
    /// `&arena[i]` (std::ops::Index of the dependency; panics when i is not live)
    #[verifier::external_body]
    pub fn vx_index(&self, i: Index) -> (r: &T) requires self.live().dom().contains(i) ensures *r == self.live()[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_index_mut(&mut self, i: Index) -> (r: &mut T)
        requires old(self).wf(), old(self).live().dom().contains(i)
        ensures *r == old(self).live()[i], final(self).wf(), final(self).issued() == old(self).issued(), final(self).live() == old(self).live().insert(i, *final(r))
    { unimplemented!() }
}

// ---- what an identifier type must be: a wrapper that converts to and from the index without loss ----
pub open spec fn id_ok<K, Id: Into<K> + From<K>>() -> bool {
    &&& <Id as IntoSpec<K>>::obeys_into_spec()
    &&& <Id as FromSpec<K>>::obeys_from_spec()
    &&& forall|k: K| #[trigger] <Id as FromSpec<K>>::from_spec(k).into_spec() == k
    &&& forall|id: Id| <Id as FromSpec<K>>::from_spec(#[trigger] id.into_spec()) == id
}

#[verifier::reject_recursive_types(T)]
pub struct IndexedArena<Id, T> { _marker: PhantomData<Id>, arena: Arena<T> }

impl<Id: Into<Index> + From<Index>, T> IndexedArena<Id, T> {
    /// the stored elements by identifier
    spec fn holds(&self, id: Id) -> bool { self.arena.live().dom().contains(id.into_spec()) }
    spec fn at(&self, id: Id) -> T { self.arena.live()[id.into_spec()] }
    /// identifiers handed out so far
    spec fn was_issued(&self, id: Id) -> bool { self.arena.issued().contains(id.into_spec()) }
    spec fn wf(&self) -> bool { self.arena.wf() && id_ok::<Index, Id>() }

    //@ extract src/voronoi/indexed_arena.rs :: impl<Id: Into<Index> + From<Index>, T> IndexedArena<Id, T> :: fn get
    //@ ret r
    //@ spec
        requires self.wf()
        ensures self.holds(id) ==> r == Some(&self.at(id)), !self.holds(id) ==> r.is_none()
    //@ end

    //@ extract src/voronoi/indexed_arena.rs :: impl<Id: Into<Index> + From<Index>, T> IndexedArena<Id, T> :: fn insert
    //@ ret r
    //@ spec
        requires old(self).wf()
        ensures final(self).wf(), final(self).holds(r), final(self).at(r) == t, !old(self).was_issued(r), !old(self).holds(r),
            forall|id: Id| #![trigger final(self).holds(id)] #![trigger final(self).at(id)] id != r ==> (final(self).holds(id) == old(self).holds(id) && final(self).at(id) == old(self).at(id)),
            forall|id: Id| #[trigger] final(self).was_issued(id) == (old(self).was_issued(id) || id == r),
            final(self).arena.live().dom().len() == old(self).arena.live().dom().len() + 1
    //@ end

    //@ extract src/voronoi/indexed_arena.rs :: impl<Id: Into<Index> + From<Index>, T> IndexedArena<Id, T> :: fn remove
    //@ ret r
    //@ spec
        requires old(self).wf()
        ensures final(self).wf(), !final(self).holds(index),
            old(self).holds(index) ==> r == Some(old(self).at(index)), !old(self).holds(index) ==> r.is_none(),
            forall|id: Id| #![trigger final(self).holds(id)] #![trigger final(self).at(id)] id != index ==> (final(self).holds(id) == old(self).holds(id) && (final(self).holds(id) ==> final(self).at(id) == old(self).at(id))),
            forall|id: Id| #[trigger] final(self).was_issued(id) == old(self).was_issued(id),
            final(self).arena.live().dom().len() == old(self).arena.live().dom().len() - (if old(self).holds(index) { 1int } else { 0 })
    //@ end

    //@ extract src/voronoi/indexed_arena.rs :: impl<Id: Into<Index> + From<Index>, T> IndexedArena<Id, T> :: fn contains
    //@ ret r
    //@ spec
        requires self.wf()
        ensures r == self.holds(id)
    //@ end

    //@ extract src/voronoi/indexed_arena.rs :: impl<Id: Into<Index> + From<Index>, T> IndexedArena<Id, T> :: fn len
    //@ ret r
    //@ spec
        requires self.wf()
        ensures r == self.arena.live().dom().len()
    //@ end

    //@ extract src/voronoi/indexed_arena.rs :: impl<Id: Into<Index> + From<Index>, T> IndexedArena<Id, T> :: fn reserve
    //@ spec
        requires old(self).wf()
        ensures final(self).wf(), forall|id: Id| #![trigger final(self).holds(id)] #![trigger final(self).at(id)] final(self).holds(id) == old(self).holds(id) && final(self).at(id) == old(self).at(id), forall|id: Id| #[trigger] final(self).was_issued(id) == old(self).was_issued(id)
    //@ end

    //@ extract src/voronoi/indexed_arena.rs :: impl<Id: Into<Index> + From<Index>, T> std::ops::Index<Id> for IndexedArena<Id, T> :: fn index
    //@ rewrite 1 `Self::Output` => `T`
    //@ rewrite 1 `&self.arena[index.into()]` => `self.arena.vx_index(index.into())`
    //@ ret r
    //@ spec
        requires self.wf(), self.holds(index)
        ensures *r == self.at(index)
    //@ end

    //@ extract src/voronoi/indexed_arena.rs :: impl<Id: Into<Index> + From<Index>, T> std::ops::IndexMut<Id> for IndexedArena<Id, T> :: fn index_mut
    //@ rewrite 1 `Self::Output` => `T`
    //@ rewrite 1 `&mut self.arena[index.into()]` => `self.arena.vx_index_mut(index.into())`
    //@ ret r
    //@ spec
        requires old(self).wf(), old(self).holds(index)
        ensures *r == old(self).at(index), final(self).wf(), final(self).at(index) == *final(r), final(self).holds(index),
            forall|id: Id| #![trigger final(self).holds(id)] #![trigger final(self).at(id)] id != index ==> (final(self).holds(id) == old(self).holds(id) && final(self).at(id) == old(self).at(id)),
            forall|id: Id| #[trigger] final(self).was_issued(id) == old(self).was_issued(id)
    //@ end
}

pub struct IndexedVec<Id, T> { _marker: PhantomData<Id>, values: Vec<T> }

impl<Id: Into<usize> + From<usize>, T> IndexedVec<Id, T> {
    spec fn holds(&self, id: Id) -> bool { id.into_spec() < self.values@.len() }
    spec fn at(&self, id: Id) -> T { self.values@[id.into_spec() as int] }
    spec fn wf(&self) -> bool { id_ok::<usize, Id>() }

    //@ extract src/voronoi/indexed_arena.rs :: impl<Id: Into<usize> + From<usize>, T> IndexedVec<Id, T> :: fn insert
    //@ ret r
    //@ spec
        requires old(self).wf()
        ensures final(self).wf(), final(self).holds(r), final(self).at(r) == t, !old(self).holds(r), final(self).values@.len() == old(self).values@.len() + 1,
            forall|id: Id| #![trigger final(self).holds(id)] #![trigger final(self).at(id)] id != r ==> (final(self).holds(id) == old(self).holds(id) && (final(self).holds(id) ==> final(self).at(id) == old(self).at(id)))
    //@ end

    //@ extract src/voronoi/indexed_arena.rs :: impl<Id: Into<usize> + From<usize>, T> std::ops::Index<Id> for IndexedVec<Id, T> :: fn index
    //@ rewrite 1 `Self::Output` => `T`
    //@ ret r
    //@ spec
        requires self.wf(), self.holds(index)
        ensures *r == self.at(index)
    //@ end

    //@ extract src/voronoi/indexed_arena.rs :: impl<Id: Into<usize> + From<usize>, T> std::ops::IndexMut<Id> for IndexedVec<Id, T> :: fn index_mut
    //@ rewrite 1 `Self::Output` => `T`
    //@ ret r
    //@ spec
        requires old(self).wf(), old(self).holds(index)
        ensures *r == old(self).at(index), final(self).wf(), final(self).at(index) == *final(r), final(self).values@.len() == old(self).values@.len(),
            forall|id: Id| #![trigger final(self).holds(id)] #![trigger final(self).at(id)] id != index ==> (final(self).holds(id) == old(self).holds(id) && (final(self).holds(id) ==> final(self).at(id) == old(self).at(id)))
    //@ end
}

// ---- the property over histories: an identifier names what was stored, or nothing -------------------
pub enum Op<Id, T> { Insert(T, Id), Remove(Id), Other }
/// what an identifier stands for after a history, as its user sees it
pub open spec fn meaning<Id, T>(h: Seq<Op<Id, T>>, id: Id) -> Option<T> decreases h.len() {
    if h.len() == 0 { None } else {
        match h.last() {
            Op::Insert(t, i) => if i == id { Some(t) } else { meaning(h.drop_last(), id) },
            Op::Remove(i) => if i == id { None } else { meaning(h.drop_last(), id) },
            Op::Other => meaning(h.drop_last(), id),
        }
    }
}
/// the postconditions proved above, as a step relation on (holds, at, issued)
#[verifier::reject_recursive_types(Id)]
pub struct St<Id, T> { pub m: spec_fn(Id) -> Option<T>, pub issued: spec_fn(Id) -> bool }
pub open spec fn step<Id, T>(a: St<Id, T>, op: Op<Id, T>, b: St<Id, T>) -> bool {
    match op {
        Op::Insert(t, i) => !(a.issued)(i) && (b.m)(i) == Some(t) && (forall|x: Id| x != i ==> #[trigger] (b.m)(x) == (a.m)(x)) && (forall|x: Id| #[trigger] (b.issued)(x) == ((a.issued)(x) || x == i)),
        Op::Remove(i) => (b.m)(i) == None::<T> && (forall|x: Id| x != i ==> #[trigger] (b.m)(x) == (a.m)(x)) && (forall|x: Id| #[trigger] (b.issued)(x) == (a.issued)(x)),
        Op::Other => (forall|x: Id| #[trigger] (b.m)(x) == (a.m)(x)) && (forall|x: Id| #[trigger] (b.issued)(x) == (a.issued)(x)),
    }
}
pub open spec fn hands_out<Id, T>(op: Op<Id, T>, id: Id) -> bool { match op { Op::Insert(_, i) => i == id, _ => false } }
pub proof fn history<Id, T>(h: Seq<Op<Id, T>>, s: Seq<St<Id, T>>, id: Id)
    requires s.len() == h.len() + 1,
        forall|x: Id| #[trigger] (s[0].m)(x) == None::<T>, forall|x: Id| !#[trigger] (s[0].issued)(x),
        forall|k: int| 0 <= k < h.len() ==> step(s[k], #[trigger] h[k], s[k + 1])
    ensures (s.last().m)(id) == meaning(h, id),
        // never handed out twice
        forall|a: int, b: int| 0 <= a < b < h.len() && #[trigger] hands_out(h[a], id) ==> !#[trigger] hands_out(h[b], id),
        forall|a: int| 0 <= a < h.len() && #[trigger] hands_out(h[a], id) ==> (s.last().issued)(id)
    decreases h.len()
{
    if h.len() > 0 {
        let h1 = h.drop_last();
        let s1 = s.drop_last();
        assert forall|k: int| 0 <= k < h1.len() implies step(s1[k], #[trigger] h1[k], s1[k + 1]) by { assert(h1[k] == h[k]); }
        history(h1, s1, id);
        let n = h.len() - 1;
        assert(step(s[n], h[n], s[n + 1]));
        assert(s1.last() == s[n]);
        assert forall|a: int| 0 <= a < n && #[trigger] hands_out(h[a], id) implies (s[n].issued)(id) by { assert(hands_out(h1[a], id)); }
        assert forall|a: int, b: int| 0 <= a < b < h.len() && #[trigger] hands_out(h[a], id) implies !#[trigger] hands_out(h[b], id) by {
            assert(hands_out(h1[a], id));
            if b < n { assert(h1[b] == h[b]); assert(hands_out(h1[b], id) == hands_out(h[b], id)); }
        }
        assert((s[n + 1].m)(id) == meaning(h, id));
    } else { assert((s[0].m)(id) == None::<T>); }
}
//@vacuity: <Id: Into<usize> + From<usize>, T>(s: IndexedVec<Id, T>, id: Id) requires s.wf(), s.holds(id) ensures false
}
fn main() {}
