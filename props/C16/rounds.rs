// Executable contract of exchanging in rounds.
pub mod vx {
    use super::*;
    use std::sync::Arc;
    use vxcore::*;

    fn ceil(g: &mut Rng) {
        let mut one = |x: usize, y: usize| {
            let inp = || format!("div_ceil({x}, {y})");
            case(x % y != 0, inp);
            let n = guarded("the number of rounds can be computed", inp, || div_ceil(x, y));
            let ok = (n as u128) * (y as u128) >= x as u128 && (n == 0 || ((n - 1) as u128) * (y as u128) < x as u128);
            check("just enough rounds", ok, inp, || format!("{n}"));
        };
        for x in 0..70 { for y in 1..40 { one(x, y); } }
        let big = [usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, 1 << 63, (1 << 32) + 1, u32::MAX as usize, 100000];
        for &x in &big { for &y in &big { one(x, y); one(x, 1); one(x, 2); one(3, y); one(y, y); one(0, y); } }
        for _ in 0..20000 { let (x, y) = (g.next() as usize >> g.below(64), (g.next() as usize >> g.below(63)).max(1)); one(x, y); if let Some(x) = y.checked_mul(g.below(5) as usize) { one(x, y) } }
    }

    fn rounds(g: &mut Rng, n: usize) {
        let chunk = *g.pick(&[1usize, 1, 2, 3, 5, 8, 1000, usize::MAX]);
        let style = g.below(4);
        let lens: Arc<Vec<usize>> = Arc::new((0..n).map(|_| match style { 0 => 0, 1 => g.below(3) as usize, 2 => (g.below(5) as usize).saturating_mul(chunk.min(50)), _ => g.below(30) as usize }).collect());
        let inp = || format!("{n} ranks with {lens:?} items, at most {chunk} at a time");
        case(n > 1, inp);
        let l = lens.clone();
        let (w, res) = mpi::simulate_in(mpi::World::with(n, g.bool(), None), move |me| {
            let items: Vec<(Rank, usize)> = (0..l[me as usize]).map(|i| (me, i)).collect();
            let mut c = ExchangeCommunicator::<usize>::new();
            let mut rounds = vec![];
            for p in divide_into_chunks_with_same_num_globally(&items, chunk) {
                assert!(rounds.len() <= 1000, "more than 1000 rounds");
                rounds.push(p.to_vec());
                // every round is an exchange all ranks take part in
                let got = c.exchange_same_for_all(&p.iter().map(|x| x.1).collect::<Vec<_>>());
                for (r, v) in got.into_iter() { assert!(v.len() <= chunk, "{} items from rank {r} in one round", v.len()); }
            }
            (items, rounds)
        });
        let want = lens.iter().map(|l| l / chunk + (l % chunk != 0) as usize).max().unwrap();
        for (r, x) in res.into_iter().enumerate() {
            let (items, got) = match x { Ok(x) => x, Err(e) => violated("every rank comes through all rounds", &inp(), &format!("rank {r}: {e}")) };
            check("all ranks take part in as many rounds as the rank with most items needs", got.len() == want, inp, || format!("rank {r}: {} rounds, {want} needed", got.len()));
            check("no round is larger than the limit", got.iter().all(|p| p.len() <= chunk), inp, || format!("rank {r}: {:?}", got.iter().map(|p| p.len()).collect::<Vec<_>>()));
            check("no empty round before the last item", got.iter().take(items.len() / chunk + (items.len() % chunk != 0) as usize).all(|p| !p.is_empty()), inp, || format!("rank {r}: {:?}", got.iter().map(|p| p.len()).collect::<Vec<_>>()));
            check("every item is in exactly one round, in order", got.concat() == items, inp, || format!("rank {r}: {got:?}"));
        }
        check("no message is left over", w.undelivered() == 0, inp, || format!("{}", w.undelivered()));
    }

    pub fn run() {
        quiet();
        let mut g = Rng::new(seed());
        ceil(&mut g);
        let m = if thorough() { 20 } else { 1 };
        for n in 1..=5 { for _ in 0..60 * m { rounds(&mut g, n); } }
        for _ in 0..5 * m { rounds(&mut g, 11); }
        done();
    }
}
