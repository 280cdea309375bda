
/// Executable contract of the search for haloes on all ranks.
pub mod vx {
    use super::*;
    use crate::components::Position;
    use crate::domain::decomposition::{Decomposition, KeyCounter};
    use crate::domain::IntoKey;
    use crate::particle::ParticleId;
    use crate::simulation_box::WrapType;
    use crate::voronoi::Point3d;
    use std::collections::HashMap;
    use vxcore::*;

    fn cube(g: &mut Rng) -> Point3d { Point3d::new(g.unit(), g.unit(), g.unit()) }
    fn sign(w: WrapType) -> i32 { match w { WrapType::NoWrap => 0, WrapType::Minus => -1, WrapType::Plus => 1 } }
    type Search = (Point3d, f64);
    /// who sent it, which particle, which image, where
    type Found = (i32, ParticleId, [i32; 3], Point3d);

    fn rounds(g: &mut Rng) {
        let ranks = *g.pick(&[1usize, 2, 2, 3, 4, 6]);
        let n = g.range(ranks as i64 * 2, 90) as usize;
        let l = *g.pick(&[1.0, 0.3, 1e20]);
        let o = *g.pick(&[0.0, 0.1, -0.5]) * l;
        let side = l * if g.bool() { Point3d::new(1.0, g.float(0.6, 1.5), g.float(0.6, 1.5)) } else { Point3d::ONE };
        // clusters, so that the ranks are apart from each other
        let centres: Vec<Point3d> = (0..g.range(1, 2 * ranks as i64)).map(|_| cube(g)).collect();
        let w = *g.pick(&[0.0, 0.05, 0.2]);
        let p: Vec<Point3d> = (0..n).map(|_| if w == 0.0 { cube(g) } else { (*g.pick(&centres) + (cube(g) - 0.5) * w).clamp(Point3d::ZERO, Point3d::splat(0.999999)) }).map(|x| x * side + o).collect();
        let v = |p: Point3d| VecLength::new_unchecked(p);
        let ext = crate::domain::Extent::from_min_max(v(Point3d::splat(o)), v(side + o));
        let keys: Vec<_> = p.iter().map(|p| v(*p).into_key(&ext)).collect();
        let deco = { let k = keys.clone(); move || -> DecompositionState { Decomposition::new(&mut KeyCounter::new(k.clone()), ranks) } };
        let owner: Vec<i32> = { let d = deco(); keys.iter().map(|k| d.get_owning_rank(*k)).collect() };
        let mut count = vec![0; ranks];
        let ids: Vec<ParticleId> = owner.iter().map(|r| { count[*r as usize] += 1; ParticleId { index: count[*r as usize] - 1, rank: *r } }).collect();
        if count.contains(&0) { return }
        let small = side.min_element();
        let searches: Vec<Vec<Vec<Search>>> = (0..g.range(1, 4)).map(|_| (0..ranks).map(|rank| (0..g.range(0, 5)).map(|_| {
            let r = small * match g.below(3) { 0 => g.float(0.3, 0.45), _ => g.float(0.01, 0.3) };
            let x = match g.below(3) {
                0 => (cube(g) * 1.8 - 0.4) * side + o,
                1 => *g.pick(&p) + (cube(g) - 0.5) * (0.3 * small),
                // just so that a particle of another rank, or an image of it, is in the outer part of the sphere
                _ => { let q: Vec<Point3d> = p.iter().zip(&owner).filter(|x| *x.1 != rank as i32 || ranks == 1).map(|x| *x.0).collect(); let d = loop { let d = cube(g) - 0.5; if d.length() > 0.1 { break d.normalize() } }; *g.pick(&q) + Point3d::new(g.range(-1, 1) as f64, g.range(-1, 1) as f64, g.range(-1, 1) as f64) * side + d * r * g.float(0.9, 0.9999) }
            };
            (x, r)
        }).filter(|s| ((s.0 - o) / side).to_array().iter().all(|c| *c > -0.45 && *c < 1.45)).collect()).collect()).collect();
        let input = || format!("{ranks} ranks, a box from {o} of the sides {side:?}, particles {:?}, searches per round and rank {searches:?}", ids.iter().zip(&p).collect::<Vec<_>>());
        case(ranks > 1, input);
        let (p2, ids2, ext2, s2) = (p.clone(), ids.clone(), ext.clone(), searches.clone());
        let (_, res) = mpi::simulate(ranks, move |rank| -> Vec<Vec<Found>> {
            let mine: Vec<usize> = (0..p2.len()).filter(|i| ids2[*i].rank == rank).collect();
            let pos: Vec<Position> = mine.iter().map(|i| Position(v(p2[*i]))).collect();
            let mut d = deco();
            crate::domain::systems::vx_set_extents(&mut d, pos.iter().collect());
            let leaf: Vec<crate::domain::LeafData> = mine.iter().map(|i| crate::domain::LeafData { id: ids2[*i], pos: v(p2[*i]) }).collect();
            let tree = QuadTree::new(&crate::quadtree::QuadTreeConfig { max_depth: 20, max_num_particles_per_leaf: 3 }, leaf, &ext2);
            let mut s = ParallelSearch::new(&tree, &d, crate::simulation_box::SimulationBox::new(ext2.clone()), HaloCache::default(), mine.len());
            s2.iter().map(|round| {
                let data = round[rank as usize].iter().map(|(point, radius)| SearchData { point: *point, radius: *radius }).collect();
                let r = s.radius_search(data);
                let _ = s.everyone_finished(1);
                r.into_iter().flat_map(|(from, r)| r.into_iter().map(move |r| { let t = r.periodic_wrap_type; (from, r.id, [sign(t.x), sign(t.y), sign(t.z)], r.point) })).collect()
            }).collect()
        });
        let w: Vec<[i32; 3]> = (0..27).map(|i| [i % 3 - 1, i / 3 % 3 - 1, i / 9 - 1]).collect();
        for (rank, r) in res.into_iter().enumerate() {
            let r = match r { Ok(r) => r, Err(e) => violated("searching for haloes: no panic", &input(), &format!("rank {rank}: {e}")) };
            let mut had: HashMap<(ParticleId, [i32; 3]), usize> = HashMap::new();
            for (k, (found, round)) in r.iter().zip(&searches).enumerate() {
                for (from, id, t, x) in found {
                    let Some(i) = ids.iter().position(|j| j == id) else { violated("what is found is a particle", &input(), &format!("{id:?}")) };
                    check("what is found comes from the rank that has it", *from == id.rank, input, || format!("rank {rank}, round {k}: {id:?} from {from}"));
                    let want = p[i] + Point3d::new(t[0] as f64, t[1] as f64, t[2] as f64) * side;
                    check("what is found is at the place of the image", x.distance(want) < 1e-9 * l, input, || format!("rank {rank}, round {k}: {id:?} wrapped by {t:?} at {x:?} instead of {want:?}"));
                    check("a rank does not find its own particles but images of them", *from != rank as i32 || *t != [0; 3], input, || format!("rank {rank}, round {k}: {id:?}"));
                    check("nothing is found twice", had.insert((*id, *t), k).is_none(), input, || format!("rank {rank}, round {k}: {id:?} wrapped by {t:?}"));
                    check("what is found is inside one of the spheres", round[rank].iter().any(|s| s.0.distance(want) < s.1 * (1.0 + 1e-9)), input, || format!("rank {rank}, round {k}: {id:?} wrapped by {t:?}"));
                }
                for s in &round[rank] {
                    for (i, id) in ids.iter().enumerate() {
                        for t in &w {
                            if id.rank == rank as i32 && *t == [0; 3] { continue }
                            let x = p[i] + Point3d::new(t[0] as f64, t[1] as f64, t[2] as f64) * side;
                            check("every particle of another rank, and every image, inside a sphere is found", x.distance(s.0) > s.1 * (1.0 - 1e-9) || had.contains_key(&(*id, *t)), input, || format!("rank {rank}, round {k}: {id:?} wrapped by {t:?} in the sphere {s:?}"));
                        }
                    }
                }
            }
        }
    }

    pub fn run() {
        quiet();
        let mut g = Rng::new(seed());
        for _ in 0..(if thorough() { 50_000 } else { 3000 }) { rounds(&mut g) }
        done()
    }
}
