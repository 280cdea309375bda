// Executable contract of the identifier stores: random histories against a reference map.
pub mod vx {
    use super::*;
    use std::collections::{BTreeMap, HashMap};
    use vxcore::*;

    #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
    struct AId(Index);
    impl From<Index> for AId { fn from(i: Index) -> Self { AId(i) } }
    impl From<AId> for Index { fn from(i: AId) -> Index { i.0 } }
    #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
    struct VId(usize);
    impl From<usize> for VId { fn from(i: usize) -> Self { VId(i) } }
    impl From<VId> for usize { fn from(i: VId) -> usize { i.0 } }

    fn arena_history(g: &mut Rng, len: usize) {
        let mut a: IndexedArena<AId, u64> = IndexedArena::default();
        let mut live: HashMap<AId, u64> = HashMap::new();
        let mut all: Vec<AId> = vec![];
        let mut log: Vec<String> = vec![];
        let mut next = 0;
        let grow = g.range(3, 8) as u64;
        for _ in 0..len {
            match g.below(10) {
                x if x < grow.min(5) => {
                    next += 1;
                    log.push(format!("insert({next})"));
                    let id = guarded("insert: no panic", || log.join("; "), || a.insert(next));
                    check("an identifier is never handed out twice", !all.contains(&id), || log.join("; "), || format!("{id:?}"));
                    all.push(id);
                    live.insert(id, next);
                }
                5 | 6 if !all.is_empty() => {
                    let id = *g.pick(&all);
                    log.push(format!("remove({id:?})"));
                    let r = guarded("remove: no panic", || log.join("; "), || a.remove(id));
                    let w = live.remove(&id);
                    check("remove returns what the identifier stood for", r == w, || log.join("; "), || format!("{r:?} instead of {w:?}"));
                }
                7 if !live.is_empty() => {
                    let mut k: Vec<_> = live.keys().copied().collect();
                    k.sort_by_key(|i| i.0.into_raw_parts());
                    let id = *g.pick(&k);
                    next += 1;
                    log.push(format!("[{id:?}] = {next}"));
                    guarded("index_mut: no panic", || log.join("; "), || a[id] = next);
                    live.insert(id, next);
                }
                8 => { let n = g.below(20) as usize; log.push(format!("reserve({n})")); a.reserve(n); }
                9 if g.below(4) == 0 => { log.push("clone".into()); a = a.clone(); }
                _ => {}
            }
            let inp = || log.join("; ");
            check("the size is the number of live elements", a.len() == live.len(), inp, || format!("{} for {}", a.len(), live.len()));
            for id in &all {
                let w = live.get(id);
                check("an identifier yields what it was handed out for, or nothing", a.get(*id) == w, inp, || format!("{id:?}: {:?} instead of {w:?}", a.get(*id)));
                check("contains tells whether the element is live", a.contains(*id) == w.is_some(), inp, || format!("{id:?}"));
                if let Some(w) = w {
                    let got = guarded("index: no panic on a live element", inp, || a[*id]);
                    check("indexing yields the element", got == *w, inp, || format!("{id:?}: {got} instead of {w}"));
                }
            }
            let mut it: Vec<(AId, u64)> = a.iter().map(|(i, t)| (i, *t)).collect();
            it.sort_by_key(|x| x.0 .0.into_raw_parts());
            let mut w: Vec<(AId, u64)> = live.iter().map(|(i, t)| (*i, *t)).collect();
            w.sort_by_key(|x| x.0 .0.into_raw_parts());
            check("iteration yields every live element once with its identifier", it == w, inp, || format!("{it:?} instead of {w:?}"));
        }
        let mut it: Vec<u64> = a.into_iter().collect();
        it.sort();
        let mut w: Vec<u64> = live.values().copied().collect();
        w.sort();
        check("consuming iteration yields every live element once", it == w, || log.join("; "), || format!("{it:?} instead of {w:?}"));
        case(!live.is_empty() && live.len() < all.len(), || log.join("; "));
    }

    fn vec_history(g: &mut Rng, len: usize) {
        let mut a: IndexedVec<VId, u64> = IndexedVec::default();
        let mut m: BTreeMap<VId, u64> = BTreeMap::new();
        let mut log: Vec<String> = vec![];
        let mut next = 0;
        for _ in 0..len {
            match g.below(8) {
                0..=4 => {
                    next += 1;
                    log.push(format!("insert({next})"));
                    let id = guarded("insert: no panic", || log.join("; "), || a.insert(next));
                    check("an identifier is never handed out twice", m.insert(id, next).is_none(), || log.join("; "), || format!("{id:?}"));
                }
                5 if !m.is_empty() => {
                    let k: Vec<_> = m.keys().copied().collect();
                    let id = *g.pick(&k);
                    next += 1;
                    log.push(format!("[{id:?}] = {next}"));
                    guarded("index_mut: no panic", || log.join("; "), || a[id] = next);
                    m.insert(id, next);
                }
                6 => { let n = g.below(20) as usize; log.push(format!("reserve({n})")); a.reserve(n) }
                _ => {}
            }
            let inp = || log.join("; ");
            for (id, w) in &m {
                let got = guarded("index: no panic on a stored element", inp, || a[*id]);
                check("indexing yields the element", got == *w, inp, || format!("{id:?}: {got} instead of {w}"));
            }
            let it: Vec<(VId, u64)> = a.iter().map(|(i, t)| (i, *t)).collect();
            let mut s = it.clone();
            s.sort();
            let w: Vec<(VId, u64)> = m.iter().map(|(i, t)| (*i, *t)).collect();
            check("iteration yields every element once with its identifier", s == w, inp, || format!("{it:?} instead of {w:?}"));
        }
        let b = a.clone();
        let it: Vec<u64> = b.into_iter().collect();
        let mut s = it.clone();
        s.sort();
        let mut w: Vec<u64> = m.values().copied().collect();
        w.sort();
        check("consuming iteration yields every element once", s == w, || log.join("; "), || format!("{it:?} instead of {w:?}"));
        case(m.len() > 1, || log.join("; "));
    }

    pub fn run() {
        quiet();
        let mut g = Rng::new(seed());
        let n = if thorough() { 20000 } else { 2500 };
        for k in 0..n {
            let len = 1 + (k % 40);
            arena_history(&mut g, len);
            vec_history(&mut g, len);
        }
        // an arena as the triangulation uses it: thousands of elements, slots reused many times
        for _ in 0..3 { arena_history(&mut g, 400); vec_history(&mut g, 300); }
        done();
    }
}
