
/// Executable side of the sweep contracts: random grids, the real sweep on several ranks with a chemistry
/// that records what it is asked, and what the caller needs to judge the record.
pub mod vxw {
    use super::*;
    use crate::particle::ParticleId;
    use crate::units::*;
    use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
    use std::sync::{Arc, Mutex};
    use vxcore::Rng;

    /// A rate that knows the direction it belongs to (-1: none).
    #[derive(Clone, Debug, mpi::traits::Equivalence)]
    pub struct Ph { pub v: f64, pub d: i64 }
    pub static MIXED: Mutex<Option<String>> = Mutex::new(None);
    fn join(a: &Ph, b: &Ph, op: &str) -> i64 {
        if a.d >= 0 && b.d >= 0 && a.d != b.d {
            let mut m = MIXED.lock().unwrap();
            if m.is_none() { *m = Some(format!("{op} of a rate of direction {} and one of direction {}", a.d, b.d)) }
        }
        if a.d >= 0 { a.d } else { b.d }
    }
    impl std::ops::Add for Ph { type Output = Ph; fn add(self, o: Ph) -> Ph { Ph { d: join(&self, &o, "sum"), v: self.v + o.v } } }
    impl std::ops::Sub for Ph { type Output = Ph; fn sub(self, o: Ph) -> Ph { Ph { d: join(&self, &o, "difference"), v: self.v - o.v } } }
    impl std::ops::AddAssign for Ph { fn add_assign(&mut self, o: Ph) { self.d = join(self, &o, "sum"); self.v += o.v } }
    impl std::ops::SubAssign for Ph { fn sub_assign(&mut self, o: Ph) { self.d = join(self, &o, "difference"); self.v -= o.v } }
    impl std::ops::Mul<f64> for Ph { type Output = Ph; fn mul(self, o: f64) -> Ph { Ph { d: self.d, v: self.v * o } } }
    impl std::ops::Div<f64> for Ph { type Output = Ph; fn div(self, o: f64) -> Ph { Ph { d: self.d, v: self.v / o } } }
    impl std::ops::Mul<Dimensionless> for Ph { type Output = Ph; fn mul(self, o: Dimensionless) -> Ph { Ph { d: self.d, v: self.v * o.value() } } }
    impl std::iter::Sum for Ph { fn sum<I: Iterator<Item = Ph>>(i: I) -> Ph { Ph { d: -1, v: i.map(|x| x.v).sum() } } }
    impl PartialEq for Ph { fn eq(&self, o: &Ph) -> bool { self.v == o.v } }
    impl PartialOrd for Ph { fn partial_cmp(&self, o: &Ph) -> Option<std::cmp::Ordering> { self.v.partial_cmp(&o.v) } }
    impl Photons for Ph {
        fn zero() -> Self { Ph { v: 0.0, d: -1 } }
        fn relative_change_to(&self, other: &Self) -> Dimensionless { Dimensionless::dimensionless(((self.v - other.v).abs() / self.v).abs().min(1.0 / f64::EPSILON)) }
        fn below_threshold(&self, threshold: PhotonRate) -> bool { self.v.abs() < threshold.value_unchecked() }
        fn make_positive(&mut self) { if self.v < 0.0 { self.v = 0.0 } }
    }

    #[derive(Clone, Debug)]
    pub enum What {
        /// cell, direction; rate offered, rate passed on, and the parts of the cell's state it should be the sum of
        Solve { cell: usize, dir: i64, rate: f64, out: f64, parts: f64 },
        /// cell, timestep; rate offered, and the parts it should be the sum of
        Update { cell: usize, dt: f64, rate: f64, parts: f64 },
    }
    #[derive(Clone, Debug)]
    pub struct Ev { pub seq: u64, pub what: What }
    #[derive(Debug)]
    pub struct Sp { pub id: usize, pub updates: usize }
    pub struct Chem { pub grid: Arc<Grid>, pub seq: Arc<AtomicU64>, pub log: Arc<Mutex<Vec<Ev>>> }
    impl Chemistry for Chem {
        type Photons = Ph;
        type Species = Sp;
        fn get_outgoing_rate(&self, cell: &Cell, site: &Site<Self>, incoming: Ph) -> Ph {
            let id = site.species.id;
            if cell.volume.value_unchecked() != id as f64 {
                let mut m = MIXED.lock().unwrap();
                if m.is_none() { *m = Some(format!("the geometry of cell {} is used with the state of cell {}", cell.volume.value_unchecked(), id)) }
            }
            let n = self.grid.dirs.len() as f64;
            let parts = if incoming.d < 0 { f64::NAN } else { site.incoming_total_rate[incoming.d as usize].v + site.periodic_source[incoming.d as usize].v + self.grid.cells[id].source / n };
            let t = &self.grid.cells[id].transmit;
            let out = incoming.v * t[site.species.updates % t.len()];
            self.log.lock().unwrap().push(Ev { seq: self.seq.fetch_add(1, SeqCst), what: What::Solve { cell: id, dir: incoming.d, rate: incoming.v, out, parts } });
            Ph { v: out, d: incoming.d }
        }
        fn update_abundances(&self, site: &mut Site<Self>, rate: Ph, timestep: Time, volume: Volume, _: Length) -> Timescale {
            let id = site.species.id;
            if volume.value_unchecked() != id as f64 {
                let mut m = MIXED.lock().unwrap();
                if m.is_none() { *m = Some(format!("the geometry of cell {} is used with the state of cell {}", volume.value_unchecked(), id)) }
            }
            let parts = site.incoming_total_rate.iter().map(|x| x.v).sum::<f64>() + site.periodic_source.iter().map(|x| x.v).sum::<f64>() + self.grid.cells[id].source;
            self.log.lock().unwrap().push(Ev { seq: self.seq.fetch_add(1, SeqCst), what: What::Update { cell: id, dt: timestep.in_seconds(), rate: rate.v, parts } });
            let w = self.grid.wish(id, site.species.updates);
            site.species.updates += 1;
            Timescale::temperature(Time::seconds(w))
        }
    }

    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum To { Cell(usize), Image(usize), Edge }
    #[derive(Clone, Debug)]
    pub struct CellSpec { pub rank: usize, pub index: usize, pub faces: Vec<([f64; 3], f64, To)>, pub source: f64, pub transmit: Vec<f64>, pub wishes: Vec<f64> }
    #[derive(Clone, Debug)]
    pub struct Grid {
        pub cells: Vec<CellSpec>, pub ranks: usize, pub dirs: Vec<[f64; 3]>, pub levels: usize, pub max_dt: f64, pub safety: f64,
        pub batch: usize, pub deadlock: bool, pub steps: usize, pub rendezvous: bool, pub late: Option<u64>, pub threshold: f64 }
    impl Grid {
        pub fn wish(&self, id: usize, n: usize) -> f64 { let w = &self.cells[id].wishes; w[n % w.len()] }
        pub fn unit_dirs(&self) -> Vec<[f64; 3]> { self.dirs.iter().map(|d| { let v = glam::DVec3::new(d[0], d[1], d[2]).normalize(); [v.x, v.y, v.z] }).collect() }
        pub fn describe(&self) -> String {
            format!("{} cells on {} ranks, {} levels, {} directions {:?}, {} tasks per batch, deadlock check {}, sends {}, rates matter above {:e}; faces (normal, area, to): {}",
                self.cells.len(), self.ranks, self.levels, self.dirs.len(), self.dirs, self.batch, self.deadlock, if self.rendezvous { "wait" } else { "do not wait" }, self.threshold,
                self.cells.iter().enumerate().map(|(i, c)| format!("[cell {i} on rank {} as {}: source {} wishes {:?} {:?}]", c.rank, c.index, c.source, c.wishes, c.faces)).collect::<Vec<_>>().join(" "))
        }
        pub fn random(g: &mut Rng, big: bool) -> Grid {
            let area = |g: &mut Rng, small: bool| if small { 10f64.powf(g.float(-5.0, 1.0)) } else { g.float(0.1, 3.0) };
            let rated = g.below(3) == 0;
            let small = g.below(3) == 0; // faces of very different size
            let cartesian = g.below(3) == 0;
            let mut pos: Vec<[f64; 3]> = vec![];
            let mut pairs: Vec<(usize, usize)> = vec![];
            let mut images: Vec<(usize, usize, [f64; 3])> = vec![];
            if cartesian {
                let m = [g.range(1, 4), g.range(1, if big { 4 } else { 3 }), g.range(1, 2)];
                for x in 0..m[0] { for y in 0..m[1] { for z in 0..m[2] { pos.push([x as f64, y as f64, z as f64]) } } }
                let at = |x: i64, y: i64, z: i64| ((x * m[1] + y) * m[2] + z) as usize;
                let periodic = g.bool();
                for x in 0..m[0] { for y in 0..m[1] { for z in 0..m[2] {
                    if x + 1 < m[0] { pairs.push((at(x, y, z), at(x + 1, y, z))) } else if periodic { images.push((at(x, y, z), at(0, y, z), [1.0, 0.0, 0.0])) }
                    if y + 1 < m[1] { pairs.push((at(x, y, z), at(x, y + 1, z))) } else if periodic { images.push((at(x, y, z), at(x, 0, z), [0.0, 1.0, 0.0])) }
                    if z + 1 < m[2] { pairs.push((at(x, y, z), at(x, y, z + 1))) } else if periodic { images.push((at(x, y, z), at(x, y, 0), [0.0, 0.0, 1.0])) }
                } } }
            } else {
                let n = g.range(1, if big { 24 } else { 10 }) as usize;
                for _ in 0..n { pos.push([g.float(-1.0, 1.0), g.float(-1.0, 1.0), g.float(-1.0, 1.0)]) }
                for i in 0..n { for j in i + 1..n { if g.below(3) == 0 { pairs.push((i, j)) } } }
                for _ in 0..g.below(6) { images.push((g.below(n as u64) as usize, g.below(n as u64) as usize, [g.float(-1.0, 1.0), g.float(-1.0, 1.0), g.float(-1.0, 1.0)])) }
            }
            let n = pos.len();
            let ranks = (g.range(1, 4) as usize).min(n);
            let mut owner: Vec<usize> = (0..n).map(|i| if i < ranks { i } else { g.below(ranks as u64) as usize }).collect();
            g.shuffle(&mut owner);
            let levels = g.range(1, 4) as usize;
            let max_dt = *g.pick(&[1.0, 1e-3, 3.0e10]);
            let mut count = vec![0; ranks];
            let mut cells: Vec<CellSpec> = owner.iter().map(|&r| {
                count[r] += 1;
                CellSpec { rank: r, index: count[r] - 1, faces: vec![], source: if g.bool() { 0.0 } else { g.float(0.1, 2.0) }, transmit: (0..g.range(1, 4)).map(|_| if g.below(6) == 0 { 0.0 } else { g.float(0.2, 1.0) }).collect(),
                    wishes: (0..3).map(|_| match g.below(12) { 0 => 0.0, 1 => f64::INFINITY, 2 => max_dt, 3 => max_dt / 2.0, _ => max_dt * 2.0f64.powf(g.float(-(levels as f64) - 0.5, 0.7)) }).collect() }
            }).collect();
            let unit = |v: [f64; 3]| { let l = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt(); [v[0] / l, v[1] / l, v[2] / l] };
            for (i, j) in pairs {
                let v = unit([pos[j][0] - pos[i][0], pos[j][1] - pos[i][1], pos[j][2] - pos[i][2]]);
                let a = area(g, small);
                cells[i].faces.push((v, a, To::Cell(j)));
                cells[j].faces.push(([-v[0], -v[1], -v[2]], a, To::Cell(i)));
            }
            for (i, j, v) in images {
                let v = unit(v);
                let a = area(g, small);
                cells[i].faces.push((v, a, To::Image(j)));
                cells[j].faces.push(([-v[0], -v[1], -v[2]], a, To::Image(i)));
            }
            for c in cells.iter_mut() {
                for _ in 0..g.below(3) { let v = unit([g.float(-1.0, 1.0), g.float(-1.0, 1.0), g.float(-1.0, 1.0)]); c.faces.push((v, area(g, small), To::Edge)) }
                let mut f = std::mem::take(&mut c.faces);
                g.shuffle(&mut f);
                c.faces = f;
            }
            let dirs: Vec<[f64; 3]> = (0..g.range(1, 5)).map(|_| if g.below(3) == 0 { *g.pick(&[[1.0, 0.0, 0.0], [-1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, -1.0], [1.0, 1.0, 0.0]]) } else { [g.float(-1.0, 1.0), g.float(-1.0, 1.0), g.float(-1.0, 1.0)] }).collect();
            Grid { cells, ranks, dirs, levels, max_dt, safety: *g.pick(&[1.0, 0.1, 0.5]), batch: *g.pick(&[0, 1, 2, 7, 10000]), deadlock: g.below(3) == 0, steps: levels + 1 + g.below(3) as usize, rendezvous: g.bool(), late: if g.bool() { Some(g.next()) } else { None }, threshold: if rated { *g.pick(&[1e-6, 0.5]) } else { f64::INFINITY } }
        }
        fn pid(&self, i: usize) -> ParticleId { ParticleId { index: self.cells[i].index as u32, rank: self.cells[i].rank as Rank } }
        fn neighbour(&self, me: usize, to: To) -> ParticleType {
            let wrap = crate::dimension::ActiveWrapType::default();
            match to {
                To::Edge => ParticleType::Boundary,
                To::Cell(j) if self.cells[j].rank == self.cells[me].rank => ParticleType::Local(self.pid(j)),
                To::Cell(j) => ParticleType::Remote(RemoteNeighbour { id: self.pid(j), rank: self.cells[j].rank as Rank }),
                To::Image(j) if self.cells[j].rank == self.cells[me].rank => ParticleType::LocalPeriodic(grid::PeriodicNeighbour { id: self.pid(j), periodic_wrap_type: wrap }),
                To::Image(j) => ParticleType::RemotePeriodic(RemotePeriodicNeighbour { id: self.pid(j), rank: self.cells[j].rank as Rank, periodic_wrap_type: wrap }),
            }
        }
        fn sweep(self: &Arc<Grid>, rank: usize, seq: Arc<AtomicU64>, log: Arc<Mutex<Vec<Ev>>>) -> Sweep<Chem> {
            let dirs: Directions = (&DirectionsSpecification::Explicit(self.dirs.iter().map(|d| VecDimensionless::dimensionless(d[0], d[1], d[2])).collect())).into();
            let mine = || (0..self.cells.len()).filter(|&i| self.cells[i].rank == rank);
            let cells: HashMap<ParticleId, Cell> = mine().map(|i| (self.pid(i), Cell {
                neighbours: self.cells[i].faces.iter().map(|(v, a, to)| (grid::Face { area: Area::square_meters(*a), normal: VecDimensionless::dimensionless(v[0], v[1], v[2]) }, self.neighbour(i, *to))).collect(),
                size: Length::meters(1.0), volume: Volume::new_unchecked(i as f64),
            })).collect();
            let sites: HashMap<ParticleId, Site<Chem>> = mine().map(|i| {
                let mut s = Site::<Chem>::new(&dirs, Sp { id: i, updates: 0 }, Density::zero(), Ph { v: self.cells[i].source, d: -1 });
                for d in 0..self.dirs.len() { s.incoming_total_rate[d].d = d as i64; }
                (self.pid(i), s)
            }).collect();
            let mut halo: Vec<ParticleId> = vec![];
            for i in mine() { for (_, _, to) in &self.cells[i].faces { if let To::Cell(j) | To::Image(j) = to { if self.cells[*j].rank != rank { halo.push(self.pid(*j)) } } } }
            let params = SweepParameters {
                directions: DirectionsSpecification::Num(1), num_timestep_levels: self.levels, periodic: false, max_timestep: Time::seconds(self.max_dt), rotate_directions: false,
                significant_rate_threshold: PhotonRate::new_unchecked(self.threshold), timestep_safety_factor: Dimensionless::dimensionless(self.safety), chemistry_timestep_safety_factor: Dimensionless::dimensionless(0.1),
                check_deadlock: self.deadlock, prevent_cooling: false, num_tasks_to_solve_before_send_receive: self.batch,
            };
            Sweep::new(dirs, cells, sites, halo, Time::seconds(self.max_dt), Dimensionless::dimensionless(self.safety), &params, self.ranks, rank as Rank, Chem { grid: self.clone(), seq, log })
        }
    }

    #[derive(Default, Debug)]
    pub struct StepLog { pub events: Vec<Ev>, pub elapsed: f64 }
    /// what one rank did, step by step; and the state of all its cells after each step
    #[derive(Default)]
    pub struct RankLog { pub steps: Vec<StepLog> , pub levels: Vec<Vec<usize>>, pub states: Vec<Vec<(usize, Vec<f64>, Vec<f64>, Vec<f64>)>>, pub wrong: Option<String> }
    /// what all ranks did: levels[step][cell] are those in force during the step
    pub struct World { pub ranks: Vec<RankLog>, pub levels: Vec<Vec<usize>> }

    static DOG: Mutex<Option<(std::time::Instant, String)>> = Mutex::new(None);
    pub fn watchdog() {
        std::thread::spawn(|| loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            if let Some((t, s)) = &*DOG.lock().unwrap() { if t.elapsed().as_secs() > 60 { vxcore::violated("every sweep ends", s, "not finished after 60 s") } }
        });
    }
    pub fn run(grid: &Grid) -> World {
        let inp = || grid.describe();
        *DOG.lock().unwrap() = Some((std::time::Instant::now(), inp()));
        *MIXED.lock().unwrap() = None;
        let g = Arc::new(grid.clone());
        let seq = Arc::new(AtomicU64::new(0));
        let g2 = g.clone();
        let (w, res) = mpi::simulate_in(mpi::World::with(g.ranks, g.rendezvous, g.late), move |r| {
            let log = Arc::new(Mutex::new(vec![]));
            let mut s = g2.sweep(r as usize, seq.clone(), log.clone());
            let mut out = RankLog::default();
            let mine: Vec<usize> = (0..g2.cells.len()).filter(|&i| g2.cells[i].rank == r as usize).collect();
            for step in 0..=g2.steps {
                out.levels.push(mine.iter().map(|&i| s.cells.get_level(g2.pid(i)).0).collect());
                for &i in &mine { if s.sites.get_level(g2.pid(i)) != s.cells.get_level(g2.pid(i)) { out.wrong = Some(format!("after step {step} the two lists disagree on the level of cell {i}")) } }
                if step == g2.steps { break }
                let e = s.run_sweeps(&mut Performance);
                out.steps.push(StepLog { events: std::mem::take(&mut *log.lock().unwrap()), elapsed: e.in_seconds() });
                let f = |v: &Vec<Ph>| v.iter().map(|x| x.v).collect::<Vec<_>>();
                out.states.push(mine.iter().map(|&i| { let t = s.sites.get(g2.pid(i)); (i, f(&t.incoming_total_rate), f(&t.outgoing_total_rate), f(&t.periodic_source)) }).collect());
                for &i in &mine {
                    let t = s.sites.get(g2.pid(i));
                    for (k, v) in [&t.incoming_total_rate, &t.outgoing_total_rate, &t.periodic_source].iter().enumerate() { for d in 0..v.len() {
                        if v[d].d >= 0 && v[d].d != d as i64 { out.wrong = Some(format!("{} of cell {i} in slot {d} belongs to direction {}", ["incoming rate", "outgoing rate", "periodic source"][k], v[d].d)) }
                    } }
                    if t.num_missing_upwind.total() != 0 { out.wrong = Some(format!("after step {step} cell {i} still waits for {:?}", t.num_missing_upwind)) }
                }
                if s.to_solve_count.total() != 0 || !s.to_solve.is_empty() { out.wrong = Some(format!("after step {step} {} solves are left, {} tasks queued", s.to_solve_count.total(), s.to_solve.len())) }
                if s.to_receive_count.iter().any(|(_, n)| *n != 0) || s.to_send.iter().any(|(_, v)| !v.is_empty()) { out.wrong = Some(format!("after step {step} messages are left")) }
            }
            // levels of the neighbours on other ranks, as this rank knows them: compared by the caller
            for (id, l) in s.halo_levels.iter() { out.levels.last_mut().unwrap().push(usize::MAX); out.states.push(vec![]); let i = (0..g2.cells.len()).find(|&i| g2.pid(i) == *id).unwrap(); out.states.last_mut().unwrap().push((i, vec![l.0 as f64], vec![], vec![])); }
            out
        });
        let ranks: Vec<RankLog> = res.into_iter().enumerate().map(|(r, x)| match x { Ok(x) => x, Err(m) => vxcore::violated("every sweep ends without an error", &inp(), &format!("rank {r}: {m}")) }).collect();
        *DOG.lock().unwrap() = None;
        if let Some(m) = MIXED.lock().unwrap().clone() { vxcore::violated("data for a cell is stored in and read from its own slot", &inp(), &m) }
        for (r, x) in ranks.iter().enumerate() { if let Some(m) = &x.wrong { vxcore::violated("the sweep leaves nothing unfinished or misplaced", &inp(), &format!("rank {r}: {m}")) } }
        if w.undelivered() != 0 { vxcore::violated("every message sent in a sweep is received in it", &inp(), &format!("{} messages were not received", w.undelivered())) }
        let mut levels = vec![vec![0; g.cells.len()]; g.steps + 1];
        for (r, x) in ranks.iter().enumerate() {
            for s in 0..=g.steps { let mut k = 0; for i in 0..g.cells.len() { if g.cells[i].rank == r { levels[s][i] = x.levels[s][k]; k += 1 } } }
        }
        for (r, x) in ranks.iter().enumerate() { for h in &x.states[g.steps..] {
            let (i, l) = (h[0].0, h[0].1[0] as usize);
            if levels[g.steps][i] != l { vxcore::violated("ranks agree on the level of every cell", &inp(), &format!("rank {r} takes cell {i} to be on level {l}, it is on {}", levels[g.steps][i])) }
        } }
        World { ranks, levels }
    }
    /// lowest permitted level in the given step, and the lowest active level of each sweep of the step
    pub fn schedule(levels: usize, step: usize) -> (usize, Vec<usize>) {
        let low = if step <= 1 { levels - 1 } else { (levels - 1).saturating_sub(step - 1) };
        let num = levels - low;
        (low, (0..1usize << (num - 1)).map(|i| if i == 0 { low } else { levels - 1 - i.trailing_zeros() as usize }).collect())
    }
    /// the solves of each sweep of the step (cell, direction, rate passed on) in the order they were made, all ranks together
    pub fn solves(g: &Grid, w: &World, step: usize) -> Vec<(usize, Vec<(usize, usize, f64)>)> {
        let lv = &w.levels[step];
        let mut pos = vec![0usize; g.ranks];
        schedule(g.levels, step).1.into_iter().map(|low| {
            let mut all = vec![];
            for r in 0..g.ranks {
                if !(0..g.cells.len()).any(|i| g.cells[i].rank == r && lv[i] >= low) { continue }
                let ev = &w.ranks[r].steps[step].events;
                let mut updated = false;
                while pos[r] < ev.len() {
                    match &ev[pos[r]].what {
                        What::Solve { cell, dir, out, .. } => { if updated { break } if *dir >= 0 { all.push((ev[pos[r]].seq, (*cell, *dir as usize, *out))) } }
                        What::Update { .. } => updated = true,
                    }
                    pos[r] += 1;
                }
            }
            all.sort_by_key(|x| x.0);
            (low, all.into_iter().map(|x| x.1).collect())
        }).collect()
    }
}
