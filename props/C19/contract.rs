pub mod vx {
    use super::*;
    use crate::domain::{Extent, LeafData, NodeData};
    use crate::prelude::ParticleId;
    use crate::quadtree::QuadTreeConfig;
    use vxcore::*;
    type Tree = crate::domain::QuadTree;
    type P = [f64; 3];

    fn v(p: P) -> VecLength { VecLength::new_unchecked(MVec::new(p[0], p[1], p[2])) }
    fn a(p: &VecLength) -> P { let p = p.value_unchecked(); [p.x, p.y, p.z] }
    fn boxed(lo: P, hi: P) -> SimulationBox { SimulationBox::new(Extent::from_min_max(v(lo), v(hi))) }

    /// the distance to the nearest image
    fn distance(lo: P, hi: P, p: P, q: P) -> f64 {
        (0..3).map(|i| { let l = hi[i] - lo[i]; let d = p[i] - q[i]; (-2..=2).map(|k| (d + k as f64 * l).abs()).fold(f64::INFINITY, f64::min) }).map(|d| d * d).sum::<f64>().sqrt()
    }
    fn inside(e: &Extent, p: P) -> bool { let (lo, hi) = (a(&e.min), a(&e.max)); (0..3).all(|i| lo[i] <= p[i] && p[i] <= hi[i]) }

    fn some_points(g: &mut Rng, lo: P, hi: P, n: usize) -> Vec<P> {
        let style = g.below(6);
        let at = |f: P| [0, 1, 2].map(|i| if f[i] == 1.0 { hi[i] } else { lo[i] + f[i] * (hi[i] - lo[i]) });
        let few: Vec<P> = (0..1 + g.below(4)).map(|_| at([g.unit(), g.unit(), g.unit()])).collect();
        let c: P = [g.unit(), g.unit(), g.unit()];
        (0..n).map(|_| match style {
            0 => at([g.unit(), g.unit(), g.unit()]),
            1 => *g.pick(&few),
            2 => at([0, 1, 2].map(|_| *g.pick(&[0.0, 0.5, 1.0, 0.25, 0.75, 0.125]))),
            3 => at([0, 1, 2].map(|i| (c[i] + 1e-9 * g.unit()).min(1.0))),
            4 => at([0, 1, 2].map(|_| if g.bool() { *g.pick(&[0.0, 1.0]) } else { g.unit() })),
            _ => if g.bool() { *g.pick(&few) } else { at([g.unit(), g.unit(), g.unit()]) },
        }).collect()
    }

    /// number of particles below a node; all clauses on the way
    fn walk(t: &Tree, depth: usize, c: &QuadTreeConfig, seen: &mut Vec<u32>, inp: &dyn Fn() -> String) -> u64 {
        let n = match &t.node {
            Node::Leaf(l) => {
                for p in l {
                    seen.push(p.id.index);
                    check("a particle is in a leaf whose box contains it", inside(&t.extent, a(&p.pos)), inp, || format!("{:?} is in the leaf from {:?} to {:?}", a(&p.pos), a(&t.extent.min), a(&t.extent.max)));
                }
                check("a leaf overflows only at the greatest depth", depth == c.max_depth || l.len() <= c.max_num_particles_per_leaf + 1, inp, || format!("{} particles at depth {depth}", l.len()));
                l.len() as u64
            }
            Node::Tree(ch) => {
                let (lo, hi) = (a(&t.extent.min), a(&t.extent.max));
                let mut boxes: Vec<(P, P)> = ch.iter().map(|c| (a(&c.extent.min), a(&c.extent.max))).collect();
                boxes.sort_by(|x, y| x.partial_cmp(y).unwrap());
                let mid = a(&t.extent.center());
                let mut want: Vec<(P, P)> = (0..8).map(|k| ([0, 1, 2].map(|i| if k >> i & 1 == 0 { lo[i] } else { mid[i] }), [0, 1, 2].map(|i| if k >> i & 1 == 0 { mid[i] } else { hi[i] }))).collect();
                want.sort_by(|x, y| x.partial_cmp(y).unwrap());
                check("the boxes of the children divide the box of their parent", boxes == want && (0..3).all(|i| close(mid[i], (lo[i] + hi[i]) / 2.0, hi[i].abs().max(lo[i].abs()), 1e-12)), inp, || format!("{boxes:?} in {lo:?} to {hi:?}"));
                ch.iter().map(|c2| walk(c2, depth + 1, c, seen, inp)).sum()
            }
        };
        check("the tree is no deeper than asked for", depth <= c.max_depth, inp, || format!("a node at depth {depth}"));
        check("a node counts the particles below it", t.data.work == n, inp, || format!("{} counted, {n} there", t.data.work));
        n
    }

    fn one(g: &mut Rng) {
        let unit = *g.pick(&[1.0, 1e-3, 3.0856e19]);
        let (lo, hi): (P, P) = match g.below(3) {
            0 => ([0.0; 3], [unit; 3]),
            1 => ([0.0; 3], [unit, 2.0 * unit, 0.3 * unit]),
            _ => { let lo = [g.float(-2.0, 2.0) * unit, g.float(-2.0, 2.0) * unit, g.float(-2.0, 2.0) * unit]; (lo, [lo[0] + g.float(0.1, 3.0) * unit, lo[1] + g.float(0.1, 3.0) * unit, lo[2] + g.float(0.1, 3.0) * unit]) }
        };
        let n = *g.pick(&[0, 1, 2, 3, 10, 40, 150]);
        let pts = some_points(g, lo, hi, n);
        let config = QuadTreeConfig { max_depth: *g.pick(&[0, 1, 2, 5, 20]), max_num_particles_per_leaf: *g.pick(&[0, 1, 2, 6]) };
        let show = || format!("box {lo:?} to {hi:?}, depth up to {}, {} per leaf, particles at {:?}", config.max_depth, config.max_num_particles_per_leaf, pts);
        case(n > 1, show);
        let b = boxed(lo, hi);
        let leaves: Vec<LeafData> = pts.iter().enumerate().map(|(i, p)| LeafData { id: ParticleId { index: i as u32, rank: 0 }, pos: v(*p) }).collect();
        let tree = guarded("the tree can be built", show, || Tree::new(&config, leaves.clone(), &b));
        let mut seen = vec![];
        walk(&tree, 0, &config, &mut seen, &show);
        seen.sort();
        let all: Vec<u32> = (0..n as u32).collect();
        check("the tree holds every particle exactly once", seen == all, show, || format!("it holds {seen:?}"));
        let mut it: Vec<u32> = guarded("the tree can be walked", show, || tree.iter().map(|l| l.id.index).collect());
        it.sort();
        check("walking the tree yields every particle exactly once", it == all, show, || format!("{it:?}"));
        let mut it = vec![];
        tree.depth_first_map_leaf(&mut |e: &Extent, l: &[LeafData]| { for p in l { it.push(p.id.index); check("leaves are shown with their box", inside(e, a(&p.pos)), show, || format!("{:?}", a(&p.pos))) } });
        it.sort();
        check("walking the leaves yields every particle exactly once", it == all, show, || format!("{it:?}"));
        let size = (0..3).map(|i| hi[i] - lo[i]).fold(0.0, f64::max);
        for _ in 0..12 {
            let q: P = if n > 0 && g.bool() { *g.pick(&pts) } else { [0, 1, 2].map(|i| lo[i] + g.float(-0.5, 1.5) * (hi[i] - lo[i])) };
            let r = match g.below(4) { 0 => size * g.float(0.0, 1.0), 1 => size * 1e-3, 2 => size * 0.1 * g.unit(), _ => if n > 0 { distance(lo, hi, q, *g.pick(&pts)) * 1.000001 } else { size } };
            let inp = || format!("search at {q:?} with radius {r} in: {}", show());
            let mut found: Vec<u32> = guarded("the tree can be searched", inp, || tree.iter_particles_in_radius(&b, v(q), Length::new_unchecked(r)).map(|l| l.id.index).collect());
            found.sort();
            check("no particle is found twice", found.windows(2).all(|w| w[0] != w[1]), inp, || format!("{found:?}"));
            for (i, p) in pts.iter().enumerate() {
                let d = distance(lo, hi, q, *p);
                if close(d, r, r + size, 1e-12) { continue }
                check("a search finds exactly the particles whose nearest image is within the radius", found.contains(&(i as u32)) == (d < r), inp, || format!("the particle {i} at {p:?}, at the distance {d}, is {}found", if d < r { "not " } else { "" }));
            }
        }
    }

    fn ranks(g: &mut Rng) {
        use crate::components::Position;
        use crate::domain::decomposition::{Decomposition, KeyCounter};
        let n = g.range(1, 6) as usize;
        let (lo, hi): (P, P) = ([0.0; 3], [g.float(0.5, 2.0), g.float(0.5, 2.0), g.float(0.5, 2.0)]);
        let empty = g.bool();
        let pts: Vec<Vec<P>> = (0..n).map(|_| { let k = if empty && g.below(3) == 0 { 0 } else { 1 + g.below(8) as usize }; some_points(g, lo, hi, k) }).collect();
        let searches: Vec<(P, f64)> = (0..20).map(|_| ([0, 1, 2].map(|i| lo[i] + g.unit() * (hi[i] - lo[i])), g.float(0.0, 0.3))).collect();
        let show = || format!("{n} ranks with particles at {pts:?} in a box to {hi:?}");
        case(n > 1, show);
        let b = boxed(lo, hi);
        let (p2, s2, b2) = (pts.clone(), searches.clone(), b.clone());
        let (_, told) = mpi::simulate(n, move |_| {
            let rank = { use crate::communication::SizedCommunicator; crate::communication::MpiWorld::<u8>::new().rank() as usize };
            let mine: Vec<Position> = p2[rank].iter().map(|p| Position(v(*p))).collect();
            let mut d: crate::domain::DecompositionState = Decomposition::new(&mut KeyCounter::new((1..=n as u128).map(|k| crate::peano_hilbert::PeanoKey3d(k * 1000)).collect()), n);
            crate::domain::systems::vx_set_extents(&mut d, mine.iter().collect());
            s2.iter().map(|(q, r)| (0..n).map(|other| d.rank_owns_part_of_search_radius(other as i32, &crate::extent::Extent::<MVec>::cube_around_sphere(MVec::new(q[0], q[1], q[2]), *r), &b2)).collect()).collect::<Vec<Vec<bool>>>()
        });
        for (rank, t) in told.into_iter().enumerate() {
            check("every rank can be asked", t.is_ok(), show, || format!("rank {rank}: {}", t.as_ref().err().unwrap()));
            let t = t.unwrap();
            for ((q, r), asked) in searches.iter().zip(&t) {
                for other in 0..n {
                    let near = pts[other].iter().any(|p| distance(lo, hi, *q, *p) < *r);
                    check("a search is sent to every rank that holds a particle within its radius", asked[other] || !near, show, || format!("rank {rank} does not ask rank {other} about {q:?} within {r}"));
                }
            }
        }
    }

    pub fn run() {
        quiet();
        let mut g = Rng::new(seed());
        let k = if thorough() { 20 } else { 1 };
        for _ in 0..400 * k { one(&mut g) }
        for _ in 0..150 * k { ranks(&mut g) }
        done();
    }
}
