// Executable contract of the per-rank container: random histories against a sorted map.
pub mod vx {
    use super::*;
    use std::collections::BTreeMap;
    use vxcore::*;

    struct Comm { size: usize, rank: Rank }
    impl SizedCommunicator for Comm {
        fn size(&self) -> usize { self.size }
        fn rank(&self) -> Rank { self.rank }
    }

    fn same(what: &str, got: Vec<(Rank, u64)>, m: &BTreeMap<Rank, u64>, inp: &dyn Fn() -> String) {
        let want: Vec<(Rank, u64)> = m.iter().map(|(a, b)| (*a, *b)).collect();
        check(&format!("{what} yields every stored value once, in ascending order of rank"), got == want, inp, || format!("got {:?}, stored {:?}", got, want));
    }

    fn history(g: &mut Rng, len: usize) {
        let top = *g.pick(&[1i64, 2, 3, 5, 8, 17, 40]);
        let mut log: Vec<String> = vec![];
        let mut m: BTreeMap<Rank, u64> = BTreeMap::new();
        let mut cap: i64; // ranks below this may be looked up
        let mut next = 1u64;
        let mut d: DataByRank<u64> = match g.below(4) {
            0 => { cap = 0; log.push("empty()".into()); DataByRank::empty() }
            1 => { cap = 0; log.push("default()".into()); DataByRank::default() }
            2 => {
                let size = g.range(0, top) as usize;
                let rank = g.range(0, top.max(1)) as Rank;
                log.push(format!("from_size_and_rank({size}, {rank})"));
                cap = size as i64;
                for r in 0..size as Rank { if r != rank { m.insert(r, 0); } }
                DataByRank::from_size_and_rank(size, rank)
            }
            _ => {
                let n = g.range(0, 6);
                let v: Vec<(Rank, u64)> = (0..n).map(|_| (g.range(0, top) as Rank, g.below(1000))).collect();
                log.push(format!("collect({:?})", v));
                cap = 0;
                for (r, x) in &v { m.insert(*r, *x); cap = cap.max(*r as i64 + 1); }
                let vv = v.clone();
                guarded("collect: no panic", || format!("{:?}", v), || vv.into_iter().collect())
            }
        };
        let mut steps = 0;
        while steps < len {
            steps += 1;
            let r = if cap > 0 { g.below(cap as u64) as Rank } else { 0 };
            let op = g.below(12);
            match op {
                0 | 1 | 2 => {
                    let r = g.range(0, top) as Rank;
                    next += 1;
                    log.push(format!("insert({r}, {next})"));
                    let inp = || log.join("; ");
                    guarded("insert: no panic", inp, || d.insert(r, next));
                    m.insert(r, next);
                    cap = cap.max(r as i64 + 1);
                }
                3 if cap > 0 => {
                    log.push(format!("remove({r})"));
                    let inp = || log.join("; ");
                    let got = guarded("remove: no panic", inp, || d.remove(&r));
                    let want = m.remove(&r);
                    check("remove returns the stored value", got == want, inp, || format!("got {:?}, stored {:?}", got, want));
                }
                4 if cap > 0 => {
                    let inp = || format!("{}; get({r})", log.join("; "));
                    let got = guarded("get: no panic", inp, || d.get(&r).cloned());
                    check("get returns the value last stored for the rank", got == m.get(&r).cloned(), inp, || format!("got {:?}, stored {:?}", got, m.get(&r)));
                }
                5 if cap > 0 => {
                    log.push(format!("get_mut({r}) += 7"));
                    let inp = || log.join("; ");
                    let got = guarded("get_mut: no panic", inp, || d.get_mut(&r).map(|x| { *x += 7; *x }));
                    let want = m.get_mut(&r).map(|x| { *x += 7; *x });
                    check("get_mut gives access to the value of the rank", got == want, inp, || format!("got {:?}, stored {:?}", got, want));
                }
                6 if m.contains_key(&r) => {
                    log.push(format!("[{r}] += 3"));
                    let inp = || log.join("; ");
                    guarded("index: no panic", inp, || d[r] += 3);
                    *m.get_mut(&r).unwrap() += 3;
                    check("indexing reads the value of the rank", d[r] == m[&r], inp, || format!("got {}, stored {}", d[r], m[&r]));
                }
                7 => {
                    log.push("iter_mut(+1)".into());
                    let inp = || log.join("; ");
                    let got: Vec<(Rank, u64)> = guarded("iter_mut: no panic", inp, || d.iter_mut().map(|(r, x)| { let o = *x; *x += 1; (r, o) }).collect());
                    same("iter_mut", got, &m, &inp);
                    for x in m.values_mut() { *x += 1; }
                }
                8 => {
                    log.push("= clone()".into());
                    let c = guarded("clone: no panic", || log.join("; "), || d.clone());
                    // changing the copy leaves the original alone
                    let mut c2 = c.clone();
                    c2.insert(top as Rank + 1, 99);
                    same("the original after changing a clone", d.iter().map(|(r, x)| (r, *x)).collect(), &m, &|| log.join("; "));
                    d = c;
                }
                9 if g.below(4) == 0 => {
                    log.push("drain_all()".into());
                    let inp = || log.join("; ");
                    let got: Vec<(Rank, u64)> = guarded("drain_all: no panic", inp, || d.drain_all().collect());
                    same("drain_all", got, &m, &inp);
                    m.clear();
                    cap = 0;
                }
                10 if g.below(4) == 0 => {
                    log.push("= into_iter().collect()".into());
                    let inp = || log.join("; ");
                    let got: Vec<(Rank, u64)> = guarded("into_iter: no panic", inp, || std::mem::replace(&mut d, DataByRank::empty()).into_iter().collect());
                    same("into_iter", got.clone(), &m, &inp);
                    let k = g.below(got.len() as u64 + 1) as usize;
                    // an iterator that is stopped early goes on where it stopped, and stays finished
                    let mut it = got.iter().cloned().collect::<DataByRank<u64>>().into_iter();
                    let mut parts: Vec<_> = it.by_ref().take(k).collect();
                    parts.extend(it.by_ref());
                    check("an iterator continues where it stopped", parts == got && it.next().is_none() && it.next().is_none(), inp, || format!("{:?}", parts));
                    cap = got.iter().map(|x| x.0 as i64 + 1).max().unwrap_or(0);
                    d = got.into_iter().collect();
                }
                _ => {}
            }
            let inp = || log.join("; ");
            let got: Vec<(Rank, u64)> = guarded("iter: no panic", inp, || d.iter().map(|(r, x)| (r, *x)).collect());
            same("iter", got, &m, &inp);
        }
        case(m.len() > 1, || log.join("; "));
    }

    fn constructors(size: usize, rank: Rank) {
        let c = Comm { size, rank };
        let inp = || format!("communicator of size {size}, rank {rank}");
        case(size > 1, inp);
        let others: Vec<Rank> = (0..size as Rank).filter(|r| *r != rank).collect();
        let all: Vec<Rank> = (0..size as Rank).collect();
        let ranks = |d: &DataByRank<u64>| d.iter().map(|x| x.0).collect::<Vec<_>>();
        let got = guarded("no panic", inp, || c.other_ranks());
        check("the other ranks are all ranks but this one, ascending", got == others, inp, || format!("{:?}", got));
        let got = guarded("no panic", inp, || c.all_ranks());
        check("all ranks, ascending", got == all, inp, || format!("{:?}", got));
        let d: DataByRank<u64> = guarded("no panic", inp, || DataByRank::from_communicator(&c));
        check("from_communicator: an entry for every other rank", ranks(&d) == others && d.iter().all(|x| *x.1 == 0), inp, || format!("{:?}", d));
        let d = guarded("no panic", inp, || DataByRank::same_for_other_ranks_in_communicator(5u64, &c));
        check("same_for_other_ranks: the value for every other rank", ranks(&d) == others && d.iter().all(|x| *x.1 == 5), inp, || format!("{:?}", d));
        let d = guarded("no panic", inp, || DataByRank::same_for_all_ranks_in_communicator(5u64, &c));
        check("same_for_all_ranks: the value for every rank", ranks(&d) == all && d.iter().all(|x| *x.1 == 5), inp, || format!("{:?}", d));
        if size > 0 && (rank as usize) < size {
            check("no entry for this rank", DataByRank::<u64>::from_communicator(&c).get(&rank).is_none(), inp, || String::new());
        }
        let mut v: DataByRank<Vec<u64>> = DataByRank::from_communicator(&c);
        let mut n = 0;
        for r in &others { for _ in 0..(*r as usize * 3 + size) % 5 { v[*r].push(1); n += 1; } }
        let got = guarded("no panic", inp, || v.size());
        check("size is the number of items over all ranks", got == n, inp, || format!("{got}, stored {n}"));
    }

    pub fn run() {
        quiet();
        for size in 0..=40usize { for rank in 0..=(size as Rank) { constructors(size, rank); } }
        let mut g = Rng::new(seed());
        let n = if thorough() { 400_000 } else { 30_000 };
        for i in 0..n { history(&mut g, if i % 50 == 0 { 60 } else { 12 }); }
        done();
    }
}
