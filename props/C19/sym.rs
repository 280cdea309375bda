// Contract of tree nodes and of the pruning of searches: any box, any node, any particle, any radius.
pub mod vx {
    use super::*;
    use crate::domain::{Extent, LeafData};
    use crate::prelude::ParticleId;
    use crate::quadtree::{NodeDataType, QuadTreeConfig};
    use symx::*;
    type Tree = crate::domain::QuadTree;

    fn vec(x: [R; 3]) -> VecLength { VecLength::new_unchecked(glam::DVec3::new(x[0], x[1], x[2])) }
    fn arr(v: &VecLength) -> [R; 3] { v.value_unchecked().to_array() }
    fn three(n: &str) -> [R; 3] { [R::var(n), R::var(n), R::var(n)] }
    fn leaf(i: u32, p: [R; 3]) -> LeafData { LeafData { id: ParticleId { index: i, rank: 0 }, pos: vec(p) } }
    /// a box and, inside of it, a smaller one with a point in it; a centre of a search within half a box of the box
    struct Setting { b: SimulationBox, e: Extent, l: [R; 3], p: [R; 3], q: [R; 3] }
    /// the extent is free along the dimensions of `free`; along the others everything coincides
    fn setting(free: &[usize]) -> Setting {
        let (mut lo, mut hi, mut a, mut b, mut p, mut q) = ([R::int(0); 3], [R::int(8); 3], [R::int(2); 3], [R::int(4); 3], [R::int(3); 3], [R::int(3); 3]);
        for d in 0..3 {
            if !free.contains(&d) { continue }
            (lo[d], hi[d], a[d], b[d], p[d], q[d]) = (R::var("lo"), R::var("hi"), R::var("a"), R::var("b"), R::var("p"), R::var("q"));
            assume(lo[d] < hi[d]);
            assume(lo[d] <= a[d]);
            assume(b[d] <= hi[d]);
            assume(a[d] <= p[d]);
            assume(p[d] <= b[d]);
            let half = (hi[d] - lo[d]) / R::int(2);
            assume(q[d] >= lo[d] - half);
            assume(q[d] <= hi[d] + half);
        }
        Setting { b: SimulationBox::new(Extent::from_min_max(vec(lo), vec(hi))), e: Extent::from_min_max(vec(a), vec(b)), l: [0, 1, 2].map(|d| hi[d] - lo[d]), p, q }
    }
    /// the image k of the point is less than r away along d
    fn near(s: &Setting, d: usize, k: i64, r: R) -> bool { let x = s.p[d] - s.q[d] + s.l[d] * R::int(k); x < r && -x < r }

    pub fn run() {
        explore("quadrants", 4000, || {
            let (lo, hi) = (three("lo"), three("hi"));
            for d in 0..3 { assume(lo[d] < hi[d]) }
            let e = Extent::from_min_max(vec(lo), vec(hi));
            let mid = [0, 1, 2].map(|d| (lo[d] + hi[d]) / R::int(2));
            let mut seen = [false; 8];
            for c in e.get_quadrants() {
                let (a, b) = (arr(&c.min), arr(&c.max));
                let mut k = 0;
                for d in 0..3 {
                    let up = !a[d].identical(lo[d]);
                    ensure_eq("a child covers one half of its parent along each dimension", a[d], if up { mid[d] } else { lo[d] });
                    ensure_eq("a child covers one half of its parent along each dimension", b[d], if up { hi[d] } else { mid[d] });
                    ensure_eq("the centre of a child is the centre of its box", arr(&c.center())[d] * R::int(2), a[d] + b[d]);
                    if up { k |= 1 << d }
                }
                seen[k] = true;
            }
            ensure("the children cover every combination of halves", seen.iter().all(|s| *s));
        });
        explore("quadrant of a point", 4000, || {
            let (lo, hi, p) = (three("lo"), three("hi"), three("p"));
            for d in 0..3 { assume(lo[d] < hi[d]); assume(lo[d] <= p[d]); assume(p[d] <= hi[d]) }
            let e = Extent::from_min_max(vec(lo), vec(hi));
            let c = &e.get_quadrants()[e.get_quadrant_index(&vec(p))];
            for d in 0..3 {
                ensure_le("a point goes to a child whose box contains it", arr(&c.min)[d], p[d]);
                ensure_le("a point goes to a child whose box contains it", p[d], arr(&c.max)[d]);
            }
        });
        explore("lemma", 100, || {
            let (x, r) = (three("x"), R::var("r"));
            assume(r > R::int(0));
            let d = vec(x).length().value_unchecked();
            assume(d < r);
            for c in x { ensure_lt("a distance less than the radius is less along every dimension", c, r); ensure_lt("a distance less than the radius is less along every dimension", -c, r) }
        });
        let deep = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
        for ks in [[0, 0, 0], [1, -1, 1], [-1, 1, -1], [1, 0, 0], [0, -1, 0], [0, 0, 1], [-1, 0, 0], [0, 1, 0], [0, 0, -1]].into_iter().take(if deep { 9 } else { 3 }) {
            explore("nodes", 6000, || {
                let s = setting(&[0, 1, 2]);
                let r = R::var("r");
                assume(r > R::int(0));
                for d in 0..3 { assume(near(&s, d, ks[d], r)) }
                let tree = Tree::make_empty_leaf_from_extent(s.e.clone());
                let search = PeriodicRadiusSearch::new(&s.b, vec(s.q), Length::new_unchecked(r));
                ensure("a node with a particle within the radius is visited", SearchCriterion::<_, LeafData>::should_visit_node(&search, &tree));
            });
            explore("ranks", 6000, || {
                let s = setting(&[0, 1, 2]);
                let r = R::var("r");
                assume(r > R::int(0));
                for d in 0..3 { assume(near(&s, d, ks[d], r)) }
                let mut dd = crate::domain::decomposition::vx_decomposition();
                crate::domain::vx_set(&mut dd, vec![None, Some(s.e.clone())]);
                let c = crate::extent::Extent::<MVec>::cube_around_sphere(glam::DVec3::new(s.q[0], s.q[1], s.q[2]), r);
                ensure("a rank whose extent has a particle within the radius is asked", dd.rank_owns_part_of_search_radius(1, &c, &s.b));
            });
        }
        for d in 0..3 {
            explore("extents of particles", 2000, || {
                let ps: Vec<[R; 3]> = (0..3).map(|_| { let mut x = [R::int(1); 3]; x[d] = R::var("p"); x }).collect();
                let v: Vec<VecLength> = ps.iter().map(|p| vec(*p)).collect();
                let e = Extent::from_positions(v.iter()).unwrap();
                let a = Extent::get_all_encompassing([e.clone(), Extent::from_positions(v[..1].iter()).unwrap()].iter()).unwrap();
                for e in [e, a] {
                    for p in &ps {
                        ensure_le("every particle is in the extent of its rank", arr(&e.min)[d], p[d]);
                        ensure_le("every particle is in the extent of its rank", p[d], arr(&e.max)[d]);
                    }
                    ensure_eq("the centre of an extent is between its ends", arr(&e.center())[d] * R::int(2), arr(&e.min)[d] + arr(&e.max)[d]);
                }
            });
            // whole trees and searches, with everything along one dimension
            for (depth, per_leaf) in [(0, 1), (1, 0), (2, 0), (2, 1)] {
                explore("trees", 60000, || {
                    let (lo, hi) = (R::int(0), R::var("hi"));
                    assume(lo < hi);
                    let mut top = [R::int(8); 3];
                    top[d] = hi;
                    let n = if depth == 2 && per_leaf == 0 { 2 } else { 3 };
                    let ps: Vec<[R; 3]> = (0..n).map(|_| { let mut x = [R::int(3); 3]; x[d] = R::var("p"); assume(x[d] >= lo); assume(x[d] <= hi); x }).collect();
                    let b = SimulationBox::new(Extent::from_min_max(vec([R::int(0); 3]), vec(top)));
                    let config = QuadTreeConfig { max_depth: depth, max_num_particles_per_leaf: per_leaf };
                    let tree = Tree::new(&config, ps.iter().enumerate().map(|(i, p)| leaf(i as u32, *p)).collect(), &b);
                    ensure("a tree counts its particles", tree.data.work == n as u64);
                    let mut seen = [0; 3];
                    tree.depth_first_map_leaf(&mut |e: &Extent, l: &[LeafData]| for p in l {
                        seen[p.id.index as usize] += 1;
                        for f in 0..3 { ensure("a particle is in a leaf whose box contains it", arr(&e.min)[f] <= arr(&p.pos)[f] && arr(&p.pos)[f] <= arr(&e.max)[f]) }
                    });
                    ensure("a tree holds every particle exactly once", seen[..n].iter().all(|s| *s == 1));
                    let mut seen = [0; 3];
                    for p in tree.iter() { seen[p.id.index as usize] += 1 }
                    ensure("walking a tree yields every particle exactly once", seen[..n].iter().all(|s| *s == 1));
                });
            }
            if d > 0 && !deep { continue }
            explore("searches", 60000, || {
                let hi = if deep { R::var("hi") } else { R::int(8) };
                assume(hi > R::int(0));
                let mut top = [R::int(8); 3];
                top[d] = hi;
                let mut ps = vec![[R::int(3); 3], [R::int(3); 3]];
                ps[0][d] = hi / R::int(8);
                for p in &mut ps[if deep { 0 } else { 1 }..] { p[d] = R::var("p"); assume(p[d] >= R::int(0)); assume(p[d] <= hi) }
                let (mut q, r) = ([R::int(3); 3], R::var("r"));
                q[d] = R::var("q");
                assume(q[d] >= R::int(0));
                assume(q[d] <= hi);
                assume(r > R::int(0));
                let b = SimulationBox::new(Extent::from_min_max(vec([R::int(0); 3]), vec(top)));
                let config = QuadTreeConfig { max_depth: 1, max_num_particles_per_leaf: 0 };
                let tree = Tree::new(&config, ps.iter().enumerate().map(|(i, p)| leaf(i as u32, *p)).collect(), &b);
                let mut seen = [0; 2];
                for p in tree.iter_particles_in_radius(&b, vec(q), Length::new_unchecked(r)) { seen[p.id.index as usize] += 1 }
                for (i, p) in ps.iter().enumerate() {
                    let x = p[d] - q[d];
                    let within = |x: R| x < r && -x < r;
                    let near = within(x) || within(x - hi) || within(x + hi);
                    ensure("a search finds exactly the particles whose nearest image is within the radius, each once", seen[i] == near as usize);
                }
            });
        }
        report();
    }
}
