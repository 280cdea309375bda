pub mod vx {
    use super::*;
    use crate::particle::*;
    use std::collections::BTreeMap;
    use vxcore::*;

    #[derive(Clone)]
    pub struct Spawned { pub halo: Option<Rank>, pub pos: VecLength, pub cell: Cell, pub id: ParticleId }

    fn part<T: 'static>(e: &[Box<dyn std::any::Any>]) -> Option<&T> { e.iter().find_map(|c| c.downcast_ref::<T>()) }

    pub fn grid(b: &SimulationBox, cell: Length, size: usize, rank: Rank, periodic: bool) -> Vec<Spawned> {
        let commands = Commands::default();
        let (s, r) = (WorldSize(size), WorldRank(rank));
        init_cartesian_grid_system(commands.clone(), Res(b), NumCellsSpec::CellSize(cell), Res(&s), Res(&r), periodic);
        let all = commands.spawned.borrow();
        all.iter()
            .map(|e| {
                let local = part::<LocalParticle>(e).is_some();
                let halo = part::<HaloParticle>(e).map(|h| h.rank);
                assert!(local != halo.is_some(), "a cell is either local or a halo");
                Spawned { halo, pos: part::<crate::components::Position>(e).expect("a position").0, cell: part::<Cell>(e).expect("a cell").clone(), id: *part::<ParticleId>(e).expect("an id") }
            })
            .collect()
    }

    fn v(p: VecLength) -> [f64; 3] { let p = p.value_unchecked(); [p.x, p.y, p.z] }

    /// where, across which border (per dimension), and which rank
    fn neighbour(p: &ParticleType) -> Option<(ParticleId, Option<Rank>, [i32; 3])> {
        let w = |t: &ActiveWrapType| { let s = |w: &WrapType| match w { WrapType::NoWrap => 0, WrapType::Plus => 1, WrapType::Minus => -1 }; [s(&t.x), s(&t.y), s(&t.z)] };
        match p {
            ParticleType::Local(id) => Some((*id, None, [0; 3])),
            ParticleType::Remote(r) => Some((r.id, Some(r.rank), [0; 3])),
            ParticleType::LocalPeriodic(p) => Some((p.id, None, w(&p.periodic_wrap_type))),
            ParticleType::RemotePeriodic(p) => Some((p.id, Some(p.rank), w(&p.periodic_wrap_type))),
            ParticleType::Boundary => None,
        }
    }

    fn one(n: [usize; 3], side: [f64; 3], cell: f64, size: usize, periodic: bool) {
        let inp = || format!("a box of {} x {} x {} with cells of {cell} ({} x {} x {} of them), {size} ranks, periodic: {periodic}", side[0], side[1], side[2], n[0], n[1], n[2]);
        case(true, inp);
        let b = SimulationBox::new(crate::domain::Extent::from_min_max(VecLength::zero(), VecLength::new_unchecked(glam::DVec3::new(side[0], side[1], side[2]))));
        let l = Length::new_unchecked(cell);
        let total = n[0] * n[1] * n[2];
        let per_rank: Vec<Vec<Spawned>> = (0..size).map(|r| guarded("the grid can be made", inp, || grid(&b, l, size, r as Rank, periodic))).collect();
        // what all ranks hold as their own
        let mut cells: BTreeMap<(i32, u32), Spawned> = BTreeMap::new();
        for (r, g) in per_rank.iter().enumerate() {
            let mine: Vec<_> = g.iter().filter(|s| s.halo.is_none()).collect();
            for s in &mine {
                check("a rank's own cells have ids of that rank", s.id.rank == r as Rank, inp, || format!("rank {r} holds the id {:?}", s.id));
                check("no id is given twice", cells.insert((s.id.rank, s.id.index), (*s).clone()).is_none(), inp, || format!("{:?}", s.id));
            }
            let mut ix: Vec<u32> = mine.iter().map(|s| s.id.index).collect();
            ix.sort();
            check("indices on a rank count from zero", ix.iter().enumerate().all(|(i, x)| i as u32 == *x), inp, || format!("rank {r}: {ix:?}"));
        }
        check("the cells tile the box: as many as fit in it", cells.len() == total, inp, || format!("{} cells", cells.len()));
        // each at its own place of the lattice
        let mut at: BTreeMap<[usize; 3], (i32, u32)> = BTreeMap::new();
        for (k, s) in &cells {
            let p = v(s.pos);
            let mut q = [0; 3];
            for d in 0..3 {
                let x = p[d] / side[d] * n[d] as f64;
                let i = x.round();
                check("cells sit on the lattice, in the box", close(x, i, n[d] as f64, 1e-9) && i >= 0.0 && i < n[d] as f64 && p[d] >= 0.0 && p[d] < side[d], inp, || format!("{:?} at {p:?}", k));
                q[d] = i as usize;
            }
            check("the cells tile the box: one at each place", at.insert(q, *k).is_none(), inp, || format!("two at {q:?}"));
        }
        let volume: f64 = cells.values().map(|s| s.cell.volume().value_unchecked()).sum();
        check("the volumes add up to the volume of the box", close(volume, side[0] * side[1] * side[2], side[0] * side[1] * side[2], 1e-9), inp, || format!("they add up to {volume}"));
        let place: BTreeMap<(i32, u32), [usize; 3]> = at.iter().map(|(a, b)| (*b, *a)).collect();
        for (q, k) in &at {
            let s = &cells[k];
            let what = || format!("the cell {q:?} has the faces {:?}", s.cell.neighbours);
            check("a cell has two faces per dimension", s.cell.neighbours.len() == 6, inp, what);
            check("the size of a cell is the cell size", close(s.cell.size.value_unchecked(), cell, cell, 1e-12), inp, what);
            let mut seen = vec![];
            for (f, t) in &s.cell.neighbours {
                let nf = f.normal.value();
                let nf = [nf.x, nf.y, nf.z];
                let d = (0..3).find(|d| close(nf[*d].abs(), 1.0, 1.0, 1e-9));
                check("a face's normal is along a dimension, of unit length", d.is_some() && (0..3).all(|e| Some(e) == d || close(nf[e], 0.0, 1.0, 1e-9)), inp, what);
                let d = d.unwrap();
                let sign: i32 = if nf[d] > 0.0 { 1 } else { -1 };
                seen.push((d, sign));
                check("a face has the area of a side of the cell", close(f.area.value_unchecked(), cell * cell, cell * cell, 1e-9), inp, what);
                let out = (sign > 0 && q[d] + 1 == n[d]) || (sign < 0 && q[d] == 0);
                match neighbour(t) {
                    None => check("a cell ends in a boundary exactly at the border of a box that is not periodic", out && !periodic, inp, what),
                    Some((id, r, wrap)) => {
                        check("a box that is not periodic has no neighbours beyond its border", !out || periodic, inp, what);
                        let mut w = *q;
                        w[d] = if sign > 0 { if out { 0 } else { q[d] + 1 } } else if out { n[d] - 1 } else { q[d] - 1 };
                        check("the neighbour is the cell next to it in the direction of the normal (across the border of a periodic box: on the other side)", place.get(&(id.rank, id.index)) == Some(&w), inp, what);
                        let mut expect = [0; 3];
                        if out { expect[d] = sign }
                        check("a neighbour is periodic exactly across the border, with the sense of the wrap", wrap == expect, inp, what);
                        check("a neighbour is remote exactly if it is on another rank", r == if id.rank == k.0 { None } else { Some(id.rank) }, inp, what);
                        // the other way round
                        let o = &cells[&(id.rank, id.index)];
                        let back = o.cell.neighbours.iter().filter(|(g, u)| {
                            let m = g.normal.value();
                            neighbour(u).map_or(false, |(i, _, w)| i == s.id && w == [-wrap[0], -wrap[1], -wrap[2]]) && close(m.x, -nf[0], 1.0, 1e-9) && close(m.y, -nf[1], 1.0, 1e-9) && close(m.z, -nf[2], 1.0, 1e-9) && close(g.area.value_unchecked(), f.area.value_unchecked(), cell * cell, 1e-12)
                        }).count();
                        check("neighbourhood is mutual: the neighbour has one face back, of the same area, with the opposite normal", back == 1, inp, || format!("{}; the neighbour has {:?}", what(), o.cell.neighbours));
                    }
                }
            }
            seen.sort();
            check("one face in each direction along each dimension", seen == vec![(0, -1), (0, 1), (1, -1), (1, 1), (2, -1), (2, 1)], inp, what);
        }
        // halos
        for (r, g) in per_rank.iter().enumerate() {
            let r = r as Rank;
            let mut want: Vec<_> = cells.iter().filter(|(k, _)| k.0 == r).flat_map(|(_, s)| s.cell.neighbours.iter()).filter_map(|(_, t)| neighbour(t)).filter(|(id, _, _)| id.rank != r).map(|(id, _, _)| (id.rank, id.index)).collect();
            want.sort();
            want.dedup();
            let mut have: Vec<_> = g.iter().filter(|s| s.halo.is_some()).map(|s| (s.id.rank, s.id.index)).collect();
            have.sort();
            check("a rank has a halo cell for each remote neighbour of its cells, once, and no other", have == want, inp, || format!("rank {r}: {have:?}, not {want:?}"));
            for s in g.iter().filter(|s| s.halo.is_some()) {
                let o = &cells[&(s.id.rank, s.id.index)];
                check("a halo cell agrees with the cell it stands for", s.halo == Some(s.id.rank) && v(s.pos) == v(o.pos) && format!("{:?}", s.cell) == format!("{:?}", o.cell), inp, || format!("rank {r}: {:?} at {:?}", s.id, v(s.pos)));
            }
        }
    }

    pub fn run() {
        quiet();
        let mut g = Rng::new(seed());
        for periodic in [false, true] {
            for m in 0..27usize {
                let n = [m % 3 + 1, m / 3 % 3 + 1, m / 9 + 1];
                for size in [1, 2, 3] {
                    one(n, n.map(|k| k as f64), 1.0, size, periodic);
                }
            }
            // sides and cell sizes as parameters have them: multiples up to rounding
            for n in 1..60usize {
                one([n, 1, 1], [1.0, 1.0 / n as f64, 1.0 / n as f64], 1.0 / n as f64, 1, periodic);
                one([n, 1, 2], [0.1 * n as f64, 0.1, 0.2], 0.1, 1 + n % 4, periodic);
            }
        }
        for _ in 0..if thorough() { 3000 } else { 300 } {
            let n = [g.range(1, 7) as usize, g.range(1, 7) as usize, g.range(1, 7) as usize];
            let unit = *g.pick(&[1.0, 0.1, 3.0856e16, 3.0856e22, 1e-3, 7.3]);
            let (cell, side) = if g.bool() {
                let cell = unit * g.float(0.1, 10.0);
                (cell, n.map(|k| cell * k as f64))
            } else {
                let side = unit * g.float(0.1, 10.0);
                let cell = side / n[0] as f64;
                (cell, [side, cell * n[1] as f64, cell * n[2] as f64])
            };
            one(n, side, cell, g.range(1, 5) as usize, g.bool());
        }
        done();
    }
}
