// Executable contract of the domain decomposition.
pub mod vx {
    use super::*;
    use crate::peano_hilbert::{PeanoKey2d, PeanoKey3d};
    use vxcore::*;

    /// a key made from its number
    trait Number: Key + Send + Sync + 'static { const TOP: u128; fn of(x: u128) -> Self; fn number(self) -> u128; }
    impl Number for PeanoKey2d { const TOP: u128 = u64::MAX as u128; fn of(x: u128) -> Self { Self(x as u64) } fn number(self) -> u128 { self.0 as u128 } }
    impl Number for PeanoKey3d { const TOP: u128 = u128::MAX; fn of(x: u128) -> Self { Self(x) } fn number(self) -> u128 { self.0 } }

    fn big(g: &mut Rng) -> u128 { (g.next() as u128) << 64 | g.next() as u128 }
    fn some_keys<K: Number>(g: &mut Rng, max: usize) -> Vec<u128> {
        let n = 1 + g.below(max as u64) as usize;
        // keys of all particles are below the largest number
        let top = K::TOP - 1;
        let style = g.below(7);
        let base = match g.below(4) { 0 => 0, 1 => top - 3 * n as u128, _ => big(g) % (top / 2) };
        let few: Vec<u128> = (0..1 + g.below(3)).map(|_| big(g) % K::TOP).collect();
        (0..n).map(|_| match style {
            0 => big(g) % K::TOP,
            1 => base + g.below(2 * n as u64) as u128,
            2 => base + g.below(3) as u128,
            3 => few[g.below(few.len() as u64) as usize],
            4 => *g.pick(&[0, top, base]),
            5 => (big(g) % K::TOP) >> g.below(if K::TOP > u64::MAX as u128 { 127 } else { 63 }),
            _ => base,
        }).collect()
    }

    /// how often the keys are shared equally because they are far enough apart
    fn spread_keys<K: Number>(g: &mut Rng, n: usize) -> Vec<u128> {
        let range = K::TOP - 2;
        let step = range / n as u128;
        let off = big(g) % 1000;
        let mut k: Vec<u128> = (0..n as u128).map(|i| i * step + if i == 0 { off } else { big(g) % (step / 3) }).collect();
        g.shuffle(&mut k);
        k
    }

    fn judge<K: Number>(d: &Decomposition<K>, keys: &[u128], n: usize, g: &mut Rng, what: &str, inp: &dyn Fn() -> String) {
        let inp = || format!("{what}: {}", inp());
        let cuts: Vec<u128> = d.cuts.iter().map(|c| c.number()).collect();
        let (min, max) = (*keys.iter().min().unwrap(), *keys.iter().max().unwrap());
        check("there is one segment per rank", cuts.len() == n && d.loads.len() == n, inp, || format!("cuts {cuts:?}, loads {:?}", d.loads));
        check("the cuts are ordered", cuts.windows(2).all(|w| w[0] <= w[1]), inp, || format!("cuts {cuts:?}"));
        check("the segments cover the whole range of keys", cuts[0] >= min && cuts[n - 1] > max, inp, || format!("cuts {cuts:?} for keys from {min} to {max}"));
        let owner = |k: u128| guarded("every key has an owner", || format!("{} key {k}", inp()), || d.get_owning_rank(K::of(k)));
        let mut probes: Vec<u128> = keys.to_vec();
        for c in &cuts { probes.extend([*c, c.saturating_sub(1), c.saturating_add(1).min(K::TOP)]); }
        probes.extend([0, K::TOP, big(g) % K::TOP, max, min]);
        probes.sort();
        let mut last = 0;
        for k in probes {
            let r = owner(k);
            check("every key's owner is one of the ranks", r >= 0 && (r as usize) < n, inp, || format!("key {k}: rank {r} (cuts {cuts:?})"));
            check("owners follow the order of the keys", r >= last, inp, || format!("key {k} belongs to rank {r}, a smaller one to {last} (cuts {cuts:?})"));
            last = r;
            let r = r as usize;
            check("a key belongs to the segment that contains it", (r == 0 || cuts[r - 1] <= k) && (k < cuts[r] || (r == n - 1 && k > max)), inp, || format!("key {k} is given to rank {r} (cuts {cuts:?})"));
        }
        let mut owned = vec![0u64; n];
        for k in keys { owned[owner(*k) as usize] += 1; }
        check("the load of a segment is the number of keys its rank owns", owned == d.loads, inp, || format!("owned {owned:?}, loads {:?} (cuts {cuts:?})", d.loads));
        check("the loads add up to the total", d.loads.iter().sum::<u64>() == keys.len() as u64, inp, || format!("loads {:?}", d.loads));
        let (lo, hi) = (*owned.iter().min().unwrap(), *owned.iter().max().unwrap());
        let imb = d.get_imbalance();
        check("the imbalance reported is that of the loads", close(imb, (hi - lo) as f64 / hi as f64, 1.0, 1e-12), inp, || format!("{imb} for loads {owned:?}"));
    }

    fn counter<K: Number>(g: &mut Rng) {
        let keys = some_keys::<K>(g, 40);
        let inp = || format!("keys {keys:?}");
        case(keys.len() > 1, inp);
        let mut c = KeyCounter::<K>::new(keys.iter().map(|k| K::of(*k)).collect());
        let (min, max) = (*keys.iter().min().unwrap(), *keys.iter().max().unwrap());
        let (lo, hi, total) = (c.min_key().number(), c.max_key().number(), c.total_load());
        check("the counter knows the smallest and the largest key", lo == min && hi == max, inp, || format!("{lo} {hi}"));
        check("the total load is the number of keys", total == keys.len() as u64, inp, || format!("{total}"));
        for _ in 0..6 {
            let mut ends = [0, 1].map(|_| match g.below(3) { 0 => big(g) % K::TOP, 1 => *g.pick(&keys), _ => *g.pick(&keys) + 1 });
            ends.sort();
            let [a, b] = ends;
            let want = keys.iter().filter(|k| a <= **k && **k < b).count() as u64;
            let got = guarded("keys in a range can be counted", || format!("{} from {a} to {b}", inp()), || KeyCounter::<K>::new(keys.iter().map(|k| K::of(*k)).collect()).load_in_range(K::of(a), K::of(b)));
            check("the load of a range is the number of keys in it, without its end", got == want, inp, || format!("from {a} to {b}: {got}, not {want}"));
            let mid = guarded("two keys have a middle", || format!("{a} {b}"), || K::middle(K::of(a), K::of(b))).number();
            check("the middle of two keys is between them", a <= mid && mid <= b && (mid - a).abs_diff(b - mid) <= 1, || format!("{a} {b}"), || format!("{mid}"));
            let next = K::of(a).next().number();
            check("the next key is one more", next == if a == K::TOP { a } else { a + 1 }, || format!("{a}"), || format!("{next}"));
        }
        check("the largest key has a next", K::of(K::TOP).next().number() == K::TOP, || "largest key".to_string(), || String::new());
    }

    fn one<K: Number>(g: &mut Rng) {
        let equal = g.below(3) == 0;
        let n = 1 + g.below(if equal { 9 } else { 14 }) as usize;
        let keys = if equal { let per = 1 + g.below(12) as usize; let extra = g.below(n as u64) as usize; spread_keys::<K>(g, n * per + extra) } else { some_keys::<K>(g, 60) };
        let inp = || format!("{n} ranks, keys {keys:?}");
        case(n > 1, inp);
        let ks = || keys.iter().map(|k| K::of(*k)).collect::<Vec<_>>();
        let d = guarded("keys can be divided among the ranks", inp, || Decomposition::new(&mut KeyCounter::new(ks()), n));
        judge(&d, &keys, n, g, "one counter", &inp);
        let mut other = ks();
        g.shuffle(&mut other);
        let e = guarded("keys can be divided among the ranks", inp, || Decomposition::new(&mut KeyCounter::new(other.clone()), n));
        check("the cuts do not depend on the order of the particles", e.cuts == d.cuts && e.loads == d.loads, inp, || format!("{:?} and {:?}", d.cuts, e.cuts));
        if equal {
            let share = (keys.len() / n) as u64;
            check("keys that are spread out are shared equally", d.loads[..n - 1].iter().all(|l| *l == share), inp, || format!("loads {:?} of {} keys", d.loads, keys.len()));
        }
        // the same, each rank counting its own
        if g.below(3) == 0 && keys.len() >= n {
            let mut by: Vec<Vec<K>> = vec![vec![]; n];
            for (i, k) in keys.iter().enumerate() { by[if i < n { i } else { g.below(n as u64) as usize }].push(K::of(*k)); }
            let by2 = by.clone();
            let (_, res) = mpi::simulate(n, move |me| {
                let mut c = ParallelCounter::new(KeyCounter::new(by2[me as usize].clone()));
                let d = Decomposition::new(&mut c, n);
                (d.cuts, d.loads)
            });
            for (r, x) in res.into_iter().enumerate() {
                match x {
                    Ok((cuts, loads)) => {
                        check("all ranks agree on the decomposition of all keys", cuts == d.cuts && loads == d.loads, || format!("{} keys by rank {by:?}", inp()), || format!("rank {r}: cuts {cuts:?}, loads {loads:?}; from all keys in one place {:?}, {:?}", d.cuts, d.loads));
                    }
                    Err(e) => violated("every rank comes through the decomposition", &inp(), &format!("rank {r}: {e}")),
                }
            }
        }
    }

    fn points(g: &mut Rng) {
        let n = 1 + g.below(6) as usize;
        let (min, len) = (glam::DVec3::new(g.float(-5.0, 5.0), g.float(-5.0, 5.0), g.float(-5.0, 5.0)), g.float(0.1, 10.0));
        let e = Extent::from_min_max(min, min + glam::DVec3::splat(len));
        let ps: Vec<glam::DVec3> = (0..1 + g.below(40)).map(|_| min + glam::DVec3::new(g.unit(), g.unit(), g.unit()) * len).collect();
        let inp = || format!("{n} ranks, box from {:?} to {:?}, points {ps:?}", e.min, e.max);
        case(n > 1, inp);
        let keys: Vec<u128> = ps.iter().map(|p| p.into_key(&e).0).collect();
        let d = guarded("points can be divided among the ranks", inp, || Decomposition::new(&mut KeyCounter::from_points_and_extent(ps.iter().copied(), &e), n));
        judge(&d, &keys, n, g, "points", &inp);
        for _ in 0..10 {
            let p = min + glam::DVec3::new(g.unit(), g.unit(), g.unit()) * len;
            let r = d.get_owning_rank(p.into_key(&e));
            check("every point of the box has an owner", r >= 0 && (r as usize) < n, || format!("{} point {p:?}", inp()), || format!("rank {r}"));
        }
    }

    pub fn run() {
        quiet();
        let mut g = Rng::new(seed());
        let rounds = if thorough() { 30000 } else { 3000 };
        for _ in 0..rounds {
            counter::<PeanoKey2d>(&mut g);
            counter::<PeanoKey3d>(&mut g);
            one::<PeanoKey2d>(&mut g);
            one::<PeanoKey3d>(&mut g);
            if g.below(4) == 0 { points(&mut g); }
        }
        done();
    }
}
