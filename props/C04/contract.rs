// Executable contract of the collective exchange: all ranks run as threads over a stand-in for MPI.
pub mod vx {
    use super::*;
    use crate::communication::Identified;
    use std::sync::Arc;
    use vxcore::*;

    #[derive(Equivalence, Clone, Copy, PartialEq, Debug)]
    struct Item { from: i32, to: i32, round: u16, index: u16, x: f64 }
    #[derive(Equivalence, Clone, Copy, PartialEq, Debug)]
    struct Other { round: u32, from: i32 }

    fn sim<R: Send + 'static>(clause: &str, n: usize, rendezvous: bool, inp: &dyn Fn() -> String, f: impl Fn(Rank) -> R + Send + Sync + 'static) -> Vec<R> {
        let (w, res) = mpi::simulate_in(mpi::World::with(n, rendezvous, None), f);
        let mut out = vec![];
        for (r, x) in res.into_iter().enumerate() {
            match x {
                Ok(x) => out.push(x),
                Err(e) => violated(clause, &inp(), &format!("rank {r}: {e}")),
            }
        }
        check("no message is left over", w.undelivered() == 0, inp, || format!("{} messages sent and not received", w.undelivered()));
        out
    }

    /// plan[round][from][to]: None = not addressed
    type Plan = Vec<Vec<Vec<Option<Vec<Item>>>>>;
    fn plan(g: &mut Rng, n: usize, rounds: usize) -> Plan {
        let style = g.below(4);
        (0..rounds).map(|round| (0..n).map(|from| (0..n).map(|to| {
            let len = match style { 0 => 0, 1 => g.below(2), 2 => g.below(6), _ => *g.pick(&[0, 1, 40]) };
            if from == to || g.below(3) == 0 { return None; }
            Some((0..len).map(|index| Item { from: from as i32, to: to as i32, round: round as u16, index: index as u16, x: g.unit() }).collect())
        }).collect()).collect()).collect()
    }
    fn show(p: &Plan) -> String {
        p.iter().map(|r| r.iter().enumerate().map(|(f, l)| format!("{f}->{:?}", l.iter().map(|x| x.as_ref().map(|v| v.len())).collect::<Vec<_>>())).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join(" | ")
    }

    fn exchange(g: &mut Rng, n: usize, rendezvous: bool) {
        let rounds = 1 + g.below(4) as usize;
        let p = Arc::new(plan(g, n, rounds));
        let how = g.below(3);
        let mixed = g.bool();
        let inp = || format!("{n} ranks, how {how}, other type in between {mixed}, sends wait {rendezvous}, message lengths (round by round, from rank -> to each rank) {}", show(&p));
        case(n > 1, inp);
        let q = p.clone();
        let res = sim("every rank comes through an exchange", n, rendezvous, &inp, move |me| {
            let mut c: ExchangeCommunicator<Item> = if how == 2 { Communicator::<Item>::new().into() } else { ExchangeCommunicator::new() };
            let mut o = ExchangeCommunicator::<Other>::new();
            assert!(c.rank() == me && c.size() == n);
            let mut out = vec![];
            for (round, by) in q.iter().enumerate() {
                let mine = &by[me as usize];
                let data: DataByRank<Vec<Item>> = mine.iter().enumerate().filter_map(|(to, v)| v.clone().map(|v| (to as Rank, v))).collect();
                let got: Vec<(Rank, Vec<Item>)> = if how == 1 && !rendezvous {
                    for (to, v) in mine.iter().enumerate() { if let Some(v) = v { c.blocking_send_vec(to as Rank, v.clone()) } }
                    c.receive_vec().into_iter().collect()
                } else {
                    c.exchange_all(data).into_iter().collect()
                };
                out.push(got);
                if mixed {
                    let x = o.exchange_same_for_all(&[Other { round: round as u32, from: me }]);
                    for (r, v) in x.iter() { assert!(*v == vec![Other { round: round as u32, from: r }], "exchange of another type: from {r} {v:?}") }
                    assert!(x.iter().count() == n - 1, "exchange of another type reached {} ranks", x.iter().count());
                }
            }
            out
        });
        for (me, rounds) in res.iter().enumerate() {
            for (round, got) in rounds.iter().enumerate() {
                let want: Vec<(Rank, Vec<Item>)> = (0..n).filter(|f| *f != me).map(|f| (f as Rank, p[round][f][me].clone().unwrap_or_default())).collect();
                check("each rank receives from every other rank exactly what was addressed to it", *got == want, inp, || format!("rank {me}, round {round}: got {:?}, addressed to it {:?}", got, want));
            }
        }
    }

    fn same_for_all(g: &mut Rng, n: usize) {
        let data: Arc<Vec<Vec<u64>>> = Arc::new((0..n).map(|_| (0..g.below(5)).map(|_| g.next()).collect()).collect());
        let inp = || format!("{n} ranks, exchange_same_for_all of {:?}", data);
        case(n > 1, inp);
        let d = data.clone();
        let res = sim("every rank comes through an exchange", n, true, &inp, move |me| {
            let mut c = ExchangeCommunicator::<u64>::new();
            let x = c.exchange_same_for_all(&d[me as usize]);
            let y = c.exchange_same_for_all(&d[me as usize]);
            (x.into_iter().collect::<Vec<_>>(), y.into_iter().collect::<Vec<_>>())
        });
        for (me, (x, y)) in res.iter().enumerate() {
            let want: Vec<(Rank, Vec<u64>)> = (0..n).filter(|f| *f != me).map(|f| (f as Rank, data[f].clone())).collect();
            check("everybody receives what everybody else gave", *x == want && *y == want, inp, || format!("rank {me}: {x:?} {y:?}"));
        }
    }

    fn gathers(g: &mut Rng, n: usize) {
        let v: Arc<Vec<i64>> = Arc::new((0..n).map(|_| g.range(-50, 50)).collect());
        let f: Arc<Vec<f64>> = Arc::new((0..n).map(|_| g.float(-1e3, 1e3)).collect());
        let var: Arc<Vec<Vec<Item>>> = Arc::new((0..n).map(|r| (0..*g.pick(&[0u64, 0, 1, 2, 7])).map(|i| Item { from: r as i32, to: 0, round: 0, index: i as u16, x: i as f64 }).collect()).collect());
        let inp = || format!("{n} ranks contribute {:?}, {:?} and lists of lengths {:?}", v, f, var.iter().map(|x| x.len()).collect::<Vec<_>>());
        case(n > 1, inp);
        let (a, b, c) = (v.clone(), f.clone(), var.clone());
        let res = sim("every rank comes through a gathering operation", n, true, &inp, move |me| {
            let m = me as usize;
            let mut w = Communicator::<i64>::new();
            let all = w.all_gather(&a[m]);
            let sum: i64 = w.all_gather_sum(&a[m]);
            let min: i64 = w.all_gather_min(&a[m]).unwrap();
            let max: i64 = w.all_gather_max(&a[m]).unwrap();
            let red = w.all_reduce_sum(&(m as u64 + 1));
            let same = (w.all_ranks_have_same_value(&a[m]), w.all_ranks_have_same_value(&5u8));
            let mut w = Communicator::<f64>::new_custom_tag(91100);
            let fm: (f64, f64) = (w.all_gather_min(&b[m]).unwrap(), w.all_gather_max(&b[m]).unwrap());
            let mut w = Communicator::<Item>::new();
            let list = w.all_gather_varcount(&c[m]);
            let list2 = w.all_gather_varcount(&c[m]);
            let mut w: Communicator<Identified<i64>> = Communicator::<i64>::new().into();
            let ids = w.all_gather(&Identified { key: 7 + m as u64, data: a[m] });
            (all, sum, min, max, red, same, fm, list, list2, ids)
        });
        for (me, (all, sum, min, max, red, same, fm, list, list2, ids)) in res.iter().enumerate() {
            let obs = |what: String| move || format!("rank {me}: {what}");
            check("gathering gives every rank's contribution in rank order", *all == *v, inp, obs(format!("{all:?}")));
            check("the global sum", *sum == v.iter().sum::<i64>(), inp, obs(format!("{sum}")));
            check("the global minimum", *min == *v.iter().min().unwrap(), inp, obs(format!("{min}")));
            check("the global maximum", *max == *v.iter().max().unwrap(), inp, obs(format!("{max}")));
            check("the reduced sum", *red == (n * (n + 1) / 2) as u64, inp, obs(format!("{red}")));
            check("comparing a value on all ranks", *same == (v.iter().all(|x| *x == v[0]), true) , inp, obs(format!("{same:?}")));
            check("the global minimum and maximum of floats", *fm == (f.iter().cloned().fold(f64::INFINITY, f64::min), f.iter().cloned().fold(f64::NEG_INFINITY, f64::max)), inp, obs(format!("{fm:?}")));
            let want: Vec<Item> = var.iter().flatten().cloned().collect();
            check("gathering lists gives all entries in rank order", *list == want && *list2 == want, inp, obs(format!("{list:?}")));
            check("gathering identified values gives all in rank order", ids.len() == n && ids.iter().enumerate().all(|(i, x)| x.key == 7 + i as u64 && x.data == v[i]), inp, obs(format!("{:?}", ids)));
        }
    }

    fn point_to_point(g: &mut Rng, n: usize) {
        let lens: Arc<Vec<u64>> = Arc::new((0..3).map(|_| g.below(5)).collect());
        let inp = || format!("{n} ranks send lists of lengths {:?} and one of another tag to the next rank", lens);
        case(n > 1, inp);
        let l = lens.clone();
        let res = sim("point-to-point messages arrive", n, false, &inp, move |me| {
            let mut a = Communicator::<u32>::new();
            let mut b = Communicator::<u32>::new_custom_tag(91101);
            let (next, prev) = ((me + 1) % n as i32, (me + n as i32 - 1) % n as i32);
            assert!(a.try_receive_vec(me).is_none() || me == next, "received something nobody sent");
            b.blocking_send_vec(next, &[1000 + me as u32]);
            for x in l.iter() { a.blocking_send_vec(next, &(0..*x as u32).collect::<Vec<_>>()) }
            let mut got = vec![a.receive_vec(prev)];
            while got.len() < l.len() { if let Some(x) = a.try_receive_vec(prev) { got.push(x) } else { std::thread::yield_now() } }
            (got, b.receive_vec(prev))
        });
        for (me, (got, other)) in res.iter().enumerate() {
            let want: Vec<Vec<u32>> = lens.iter().map(|x| (0..*x as u32).collect()).collect();
            check("messages between two ranks arrive complete and in order", *got == want, inp, || format!("rank {me}: {got:?}"));
            check("messages of another tag do not mix in", *other == vec![1000 + ((me + n - 1) % n) as u32], inp, || format!("rank {me}: {other:?}"));
        }
    }

    fn rounds(g: &mut Rng, n: usize) {
        let chunk = 1 + g.below(5) as usize;
        let lens: Arc<Vec<usize>> = Arc::new((0..n).map(|_| g.below(23) as usize).collect());
        let inp = || format!("{n} ranks with {:?} items in rounds of up to {chunk}", lens);
        case(true, inp);
        let l = lens.clone();
        let res = sim("every rank comes through the division into rounds", n, true, &inp, move |me| {
            let items: Vec<usize> = (0..l[me as usize]).collect();
            let x: Vec<Vec<usize>> = divide_into_chunks_with_same_num_globally(&items, chunk).map(|c| c.to_vec()).collect();
            x
        });
        for (me, x) in res.iter().enumerate() {
            check("all ranks agree on the number of rounds", x.len() == res[0].len(), inp, || format!("rank {me}: {} rounds, rank 0: {}", x.len(), res[0].len()));
        }
    }

    pub fn run() {
        quiet();
        let mut g = Rng::new(seed());
        let k = if thorough() { 20 } else { 1 };
        for n in 1..=6 {
            for _ in 0..60 * k { exchange(&mut g, n, false); exchange(&mut g, n, true); }
            for _ in 0..25 * k { gathers(&mut g, n); same_for_all(&mut g, n); point_to_point(&mut g, n); rounds(&mut g, n); }
        }
        for n in [9, 16] { for _ in 0..4 * k { exchange(&mut g, n, true); gathers(&mut g, n); rounds(&mut g, n); } }
        done();
    }
}
