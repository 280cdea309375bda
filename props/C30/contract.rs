
/// Executable contract of the triangulation and the Voronoi grid.
pub mod vx {
    use super::delaunay::dimension::{DFace, DTetra};
    use super::delaunay::{PointIndex, PointKind, TetraIndex, Triangulation};
    use super::{Constructor, DCell, Point3d};
    use crate::dimension::ThreeD;
    use crate::extent::Extent;
    use crate::particle::ParticleId;
    use crate::simulation_box::WrapType;
    use crate::sweep::grid::{Cell as GridCell, ParticleType};
    use num::{BigInt, BigRational, Signed, Zero};
    use std::collections::{HashMap, HashSet};
    use vxcore::*;

    // ---- exact arithmetic
    type V = [BigInt; 3];
    fn ex(p: Point3d, shift: i32) -> V { p.to_array().map(|x| (BigRational::from_float(x).unwrap() * if shift >= 0 { BigRational::from(BigInt::from(1) << shift as usize) } else { BigRational::new(BigInt::from(1), BigInt::from(1) << (-shift) as usize) }).to_integer()) }
    fn sub(a: &V, b: &V) -> V { [&a[0] - &b[0], &a[1] - &b[1], &a[2] - &b[2]] }
    fn dot(a: &V, b: &V) -> BigInt { &a[0] * &b[0] + &a[1] * &b[1] + &a[2] * &b[2] }
    fn det3(a: &V, b: &V, c: &V) -> BigInt { &a[0] * (&b[1] * &c[2] - &b[2] * &c[1]) + &a[1] * (&b[2] * &c[0] - &b[0] * &c[2]) + &a[2] * (&b[0] * &c[1] - &b[1] * &c[0]) }
    fn orient(t: &[&V; 4]) -> BigInt { det3(&sub(t[1], t[0]), &sub(t[2], t[0]), &sub(t[3], t[0])) }
    /// radius^2 - distance^2 of e and the sphere through the vertices, times the absolute volume
    fn insphere(t: &[&V; 4], e: &V) -> BigInt {
        let w: Vec<V> = t.iter().map(|p| sub(p, e)).collect();
        let mut s = BigInt::zero();
        for i in 0..4 {
            let r: Vec<&V> = (0..4).filter(|j| *j != i).map(|j| &w[j]).collect();
            let m = dot(&w[i], &w[i]) * det3(r[0], r[1], r[2]);
            s = if i % 2 == 0 { s + m } else { s - m };
        }
        if orient(t).is_negative() { -s } else { s }
    }

    // ---- points
    fn points(g: &mut Rng, n: usize) -> Vec<Point3d> {
        let s = *g.pick(&[1.0, 1.0, 1e-3, 1e4, 3e21]);
        let o = if g.bool() { Point3d::ZERO } else { Point3d::new(g.float(-2.0, 2.0), g.float(-2.0, 2.0), g.float(-2.0, 2.0)) };
        let side = match g.below(3) { 0 => Point3d::new(g.float(0.2, 1.0), g.float(0.2, 1.0), g.float(0.2, 1.0)), _ => Point3d::ONE };
        let kind = g.below(5);
        let jitter = 10f64.powi(g.range(-9, -1) as i32);
        let m = (n as f64).cbrt().ceil() as usize;
        let centres: Vec<Point3d> = (0..3).map(|_| cube(g)).collect();
        (0..n).map(|i| {
            let c = match kind {
                0 | 1 => cube(g),
                2 => { let w = 10f64.powi(g.range(-6, 0) as i32); let c = *g.pick(&centres); (c + (cube(g) - 0.5) * w).clamp(Point3d::ZERO, Point3d::ONE) * 0.999 + cube(g) * 1e-7 }
                3 => (Point3d::new((i % m) as f64, (i / m % m) as f64, (i / m / m) as f64) + 0.5 + (cube(g) - 0.5) * jitter) / m as f64,
                _ => { let v = loop { let v = cube(g) - 0.5; if v.length() > 0.05 && v.length() < 0.5 { break v } }; v.normalize() * (0.4 + 0.01 * jitter * g.unit()) + 0.5 }
            };
            (o + c * side) * s
        }).collect()
    }
    fn cube(g: &mut Rng) -> Point3d { Point3d::new(g.unit(), g.unit(), g.unit()) }

    // ---- the triangulation
    fn empty(e: &Extent<Point3d>) -> Triangulation<ThreeD> { Triangulation::<ThreeD>::construct_from_iter_custom_extent(std::iter::empty::<(u32, Point3d)>(), e).0 }

    fn valid(t: &Triangulation<ThreeD>, input: &dyn Fn() -> String) {
        let orig: Vec<(PointIndex, Point3d)> = t.iter_original_points().collect();
        let size = orig.iter().flat_map(|p| p.1.to_array()).fold(0.0f64, |a, x| a.max(x.abs()));
        let bits = 60 - size.log2().floor() as i32;
        let re: HashMap<PointIndex, V> = orig.iter().map(|(i, _)| (*i, ex(t.get_remapped_point(*i), 80))).collect();
        let or: HashMap<PointIndex, V> = orig.iter().map(|(i, p)| (*i, ex(*p, bits))).collect();
        let outer: Vec<PointIndex> = orig.iter().map(|p| p.0).filter(|p| t.point_kinds[p] == PointKind::Outer).collect();
        check("there are four outer points", outer.len() == 4, input, || format!("{}", outer.len()));
        let mut volume = BigInt::zero();
        let mut owners: HashMap<String, Vec<(TetraIndex, PointIndex, Option<(TetraIndex, PointIndex)>)>> = HashMap::new();
        let mut seen: HashSet<PointIndex> = HashSet::new();
        for (i, tet) in t.tetras.iter() {
            let p: Vec<PointIndex> = tet.points().collect();
            let v = orient(&[0, 1, 2, 3].map(|k| &re[&p[k]]));
            check("no tetrahedron is flat", !v.is_zero(), input, || format!("{p:?}"));
            volume += v.abs();
            seen.extend(p.iter().copied());
            for (f, opposite) in tet.faces_and_points() {
                let face: HashSet<PointIndex> = t.faces[f.face].points().collect();
                let want: HashSet<PointIndex> = p.iter().copied().filter(|q| *q != opposite).collect();
                check("a face of a tetrahedron has the points of the tetrahedron but the opposite one", face == want, input, || format!("{face:?} in {p:?}"));
                owners.entry(format!("{:?}", f.face)).or_default().push((i, opposite, f.opposing.map(|o| (o.tetra, o.point))));
            }
        }
        check("every point is a vertex of a tetrahedron", seen.len() == orig.len(), input, || format!("{} of {}", seen.len(), orig.len()));
        let whole = orient(&[0, 1, 2, 3].map(|k| &re[&outer[k]])).abs();
        check("the tetrahedra fill the enclosing tetrahedron without overlap", volume == whole, input, || format!("volumes add up to {volume} instead of {whole}"));
        check("every face belongs to a tetrahedron", owners.len() == t.faces.len(), input, || format!("{} of {} do", owners.len(), t.faces.len()));
        check("only the four outer faces have a single tetrahedron", owners.values().filter(|o| o.len() == 1).count() == 4, input, || format!("{} have", owners.values().filter(|o| o.len() == 1).count()));
        for o in owners.values() {
            let ok = match &o[..] { [a] => a.2.is_none(), [a, b] => a.2 == Some((b.0, b.1)) && b.2 == Some((a.0, a.1)), _ => false };
            check("tetrahedra that share a face know each other and the opposite points", ok, input, || format!("{o:?}"));
            if o.len() == 2 {
                let p: Vec<PointIndex> = t.tetras[o[0].0].points().collect();
                let i = insphere(&[0, 1, 2, 3].map(|k| &re[&p[k]]), &re[&o[1].1]);
                check("no point is inside the circumsphere of a tetrahedron", !i.is_positive(), input, || format!("{:?} is inside that of {p:?}", o[1].1));
                // the same in the coordinates the points were given in, up to rounding
                let j = insphere(&[0, 1, 2, 3].map(|k| &or[&p[k]]), &or[&o[1].1]);
                let j = BigRational::new(j, BigInt::from(1) << 300usize);
                use num::ToPrimitive;
                let j = j.to_f64().unwrap();
                check("no point is inside the circumsphere of a tetrahedron in the coordinates the points were given in", j < 1e-12, input, || format!("{:?} is inside that of {p:?} (by {j:e})", o[1].1));
            }
        }
    }

    fn triangulations(g: &mut Rng) {
        let n = g.range(1, 25) as usize;
        let p = points(g, n);
        let input = || format!("points {p:?}");
        let e = Extent::from_points(p.iter().copied()).unwrap();
        let e = if n < 5 || g.below(3) == 0 { let d = Point3d::splat((e.max - e.min).max_element().max(1e-6 * p[0].length())); Extent::from_min_max(e.min - d, e.max + d * 1.5) } else { e };
        if (e.max - e.min).min_element() < 1e-3 * (e.max - e.min).max_element() { return }
        case(n > 1, input);
        let mut t = guarded("an empty triangulation: no panic", input, || empty(&e));
        valid(&t, &input);
        for (k, q) in p.iter().enumerate() {
            let (i, new) = guarded("inserting a point: no panic", input, || t.insert(*q, PointKind::Inner));
            check("the point inserted is the point given", t.get_original_point(i) == *q, input, || format!("{:?} instead of {q:?}", t.get_original_point(i)));
            let new: HashSet<TetraIndex> = new.into_iter().collect();
            for (j, tet) in t.tetras.iter() { check("all tetrahedra at the inserted point are reported as new", !tet.contains_point(i) || new.contains(&j), input, || format!("{j:?} at the point {k}")) }
            valid(&t, &|| format!("points {p:?}, after the insertion of number {k}"));
        }
    }

    /// points that are not in general position: either they are refused, or the triangulation is right
    fn degenerate(g: &mut Rng) {
        let n = g.range(3, 14) as usize;
        let k = g.range(2, 5);
        let kind = g.below(4);
        let (a, b, c) = (cube(g), cube(g), cube(g));
        let f = |i: i64| i as f64 / k as f64;
        let p: Vec<Point3d> = (0..n).map(|_| match kind {
            0 => Point3d::new(f(g.range(0, k)), f(g.range(0, k)), f(g.range(0, k))),
            1 => a + (b - a) * (g.range(0, 16) as f64 / 16.0),
            2 => a + (b - a) * g.unit() + (c - a) * g.unit(),
            _ => if g.bool() { cube(g) } else { Point3d::new(f(g.range(0, k)), g.unit(), g.unit()) },
        }).collect();
        let input = || format!("points {p:?}");
        case(true, input);
        let mut t = empty(&Extent::from_min_max(Point3d::splat(-0.1), Point3d::splat(if g.bool() { 1.1 } else { 2.7 })));
        for (j, q) in p.iter().enumerate() {
            if try_guarded(|| t.insert(*q, PointKind::Inner)).is_err() { return }
            valid(&t, &|| format!("points {p:?} (not in general position), after the insertion of number {j}, which was not refused"));
        }
    }

    // ---- cells, by clipping
    #[derive(Clone, Debug)]
    pub struct F { to: usize, area: f64, normal: Point3d, dist: f64 }
    pub struct C { faces: Vec<F>, reach: f64 }
    /// the cell of p among q, by clipping; None if it is not bounded or reaches 10 times as far as the points
    fn cell(p: Point3d, q: &[Point3d]) -> Option<C> {
        let mut near: Vec<(f64, usize)> = q.iter().enumerate().map(|(i, x)| (x.distance(p), i)).filter(|x| x.0 > 0.0).collect();
        near.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let mut k = 40.min(near.len());
        loop {
            let big = near[k - 1].0 * 100.0;
            let mut c = C { faces: vec![], reach: 0.0 };
            for (d, i) in &near[..k] {
                let n = (q[*i] - p) / *d;
                let u = n.any_orthonormal_vector();
                let v = n.cross(u);
                let m = (p + q[*i]) / 2.0;
                let mut poly: Vec<Point3d> = [(1.0, 1.0), (-1.0, 1.0), (-1.0, -1.0), (1.0, -1.0)].iter().map(|(a, b)| m + (u * *a + v * *b) * big).collect();
                for (e, j) in &near[..k] {
                    if j == i { continue }
                    let (w, mid) = ((q[*j] - p) / *e, (p + q[*j]) / 2.0);
                    let side: Vec<f64> = poly.iter().map(|x| w.dot(*x - mid)).collect();
                    let mut out = vec![];
                    for a in 0..poly.len() {
                        let b = (a + 1) % poly.len();
                        if side[a] <= 0.0 { out.push(poly[a]) }
                        if (side[a] < 0.0 && side[b] > 0.0) || (side[a] > 0.0 && side[b] < 0.0) { out.push(poly[a] + (poly[b] - poly[a]) * (side[a] / (side[a] - side[b]))) }
                    }
                    poly = out;
                    if poly.len() < 3 { break }
                }
                if poly.len() < 3 { continue }
                let mut s = Point3d::ZERO;
                for a in 1..poly.len() - 1 { s += (poly[a] - poly[0]).cross(poly[a + 1] - poly[0]) / 2.0 }
                c.reach = poly.iter().map(|x| x.distance(p)).fold(c.reach, f64::max);
                c.faces.push(F { to: *i, area: s.length(), normal: n, dist: d / 2.0 });
            }
            if c.reach * 2.0 < near[k - 1].0 { return Some(c) }
            if k == near.len() { return if c.reach < big / 10.0 { Some(c) } else { None } }
            k = (2 * k).min(near.len());
        }
    }
    impl C { fn volume(&self) -> f64 { self.faces.iter().map(|f| f.area * f.dist / 3.0).sum() } }

    /// faces of a cell of the code against those of the oracle, both as (label, area, normal)
    fn same_faces<L: std::hash::Hash + Eq + std::fmt::Debug + Clone>(what: &str, got: &[(L, f64, Point3d)], want: &[(L, f64, Point3d)], reach: f64, input: &dyn Fn() -> String) {
        let tol = 1e-6 * reach * reach;
        let mut sums: HashMap<L, (f64, f64)> = HashMap::new();
        for (l, a, _) in got { sums.entry(l.clone()).or_default().0 += *a }
        for (l, a, _) in want { sums.entry(l.clone()).or_default().1 += *a }
        for (l, (a, b)) in &sums { check("a cell has the faces of the Voronoi cell of its point, with their areas", (a - b).abs() <= tol, input, || format!("{what}: area {a} instead of {b} towards {l:?}")) }
        for (l, a, n) in got.iter().filter(|x| x.1 > 1e3 * tol) {
            check("the normal of a face points from the point of the cell to that of the neighbour", want.iter().any(|w| w.0 == *l && w.2.distance(*n) < 1e-6), input, || format!("{what}: {n:?} towards {l:?} (area {a})"));
            check("the area of a face is not negative", *a >= 0.0, input, || format!("{what}: {a}"));
        }
    }

    fn cells(g: &mut Rng) {
        let n = g.range(5, 70) as usize;
        let p = points(g, n);
        let input = || format!("points {p:?}");
        let scale = { let e = Extent::from_points(p.iter().copied()).unwrap(); (e.max - e.min).max_element() };
        let rank = g.below(3) as i32;
        let id = |i: usize| ParticleId { index: i as u32, rank };
        let c = guarded("constructing the grid: no panic", input, || Constructor::<ThreeD>::new(p.iter().enumerate().map(|(i, x)| (id(i), *x))));
        let grid = guarded("constructing the cells: no panic", input, || c.voronoi());
        check("there is a cell for every point", grid.cells.len() == n, input, || format!("{} cells for {n} points", grid.cells.len()));
        let sweep: HashMap<ParticleType, GridCell> = guarded("constructing the cells for the sweep: no panic", input, || c.sweep_grid(g.bool())).into_iter().collect();
        check("there is a cell of the sweep for every point", sweep.len() == n, input, || format!("{} cells for {n} points", sweep.len()));
        let mut finite = 0;
        let lookups: Vec<Point3d> = (0..30).map(|_| { let a = *g.pick(&p); let b = *g.pick(&p); a + (b - a) * g.unit() + (cube(g) - 0.5) * (0.2 * scale) }).collect();
        for i in 0..n {
            let ty = ParticleType::Local(id(i));
            let pi = c.get_point_by_cell(ty);
            check("every point has its cell", pi.is_some() && c.get_cell_by_point(pi.unwrap()) == Some(ty) && c.get_position_for_cell(ty) == p[i], input, || format!("point {i}: {pi:?}"));
            let Some(cl) = grid.cells.iter().find(|c| c.index == ty) else { violated("every point has its cell", &input(), &format!("none for the point {i}")) };
            check("a cell knows its point", cl.center == p[i] && Some(cl.delaunay_point) == pi, input, || format!("{:?} for the point {i}", cl.center));
            let real = cell(p[i], &p);
            let boundary = cl.faces.iter().any(|f| f.connection == ParticleType::Boundary);
            check("a cell is infinite if it has the boundary as a neighbour", cl.is_infinite == boundary, input, || format!("point {i}: {} {boundary}", cl.is_infinite));
            if cl.is_infinite { continue }
            let Some(real) = real else {
                // larger than the clipping reaches: at least far larger than the set of points
                let reach = cl.points.iter().map(|x| x.distance(p[i])).fold(0.0, f64::max);
                check("a cell that is not bounded is called infinite", reach > scale, input, || format!("that of the point {i} is not, and reaches to {reach}"));
                continue
            };
            if real.reach > 3.0 * scale { continue }
            finite += 1;
            let got: Vec<_> = cl.faces.iter().map(|f| (f.connection, f.area, f.normal)).collect();
            let want: Vec<_> = real.faces.iter().map(|f| (ParticleType::Local(id(f.to)), f.area, f.normal)).collect();
            same_faces(&format!("point {i}"), &got, &want, real.reach, &input);
            let v = real.volume();
            check("the volume of a cell is that of the Voronoi cell", close(cl.volume(), v, real.reach.powi(3), 1e-6), input, || format!("point {i}: {} instead of {v}", cl.volume()));
            check("the size of a cell is the radius of the ball of its volume", close(cl.size().powi(3) * 4.0 / 3.0 * std::f64::consts::PI, v, real.reach.powi(3), 1e-6), input, || format!("point {i}: {} with the volume {v}", cl.size()));
            let s = &sweep[&ty];
            let got: Vec<_> = s.neighbours.iter().map(|(f, t)| (*t, f.area.value_unchecked(), f.normal.value_unchecked())).collect();
            same_faces(&format!("point {i} in the grid of the sweep"), &got, &want, real.reach, &input);
            check("the volume of a cell of the sweep is that of the Voronoi cell", close(s.volume.value_unchecked(), v, real.reach.powi(3), 1e-6), input, || format!("point {i}: {:?} instead of {v}", s.volume));
            check("the size of a cell of the sweep is that of the cell", close(s.size.value_unchecked(), cl.size(), cl.size(), 1e-9), input, || format!("point {i}: {:?}", s.size));
            for x in &lookups {
                let d: Vec<f64> = p.iter().map(|q| q.distance(*x)).collect();
                let other = (0..n).filter(|j| *j != i).map(|j| d[j]).fold(f64::INFINITY, f64::min);
                if (d[i] - other).abs() < 1e-6 * scale { continue }
                check("a cell contains the points that are nearest to its own", cl.contains(*x) == (d[i] < other), input, || format!("cell of {i}, point {x:?}: {}", cl.contains(*x)));
            }
        }
        case(finite > 0, input);
    }

    // ---- the grid of all ranks
    fn sign(w: WrapType) -> f64 { match w { WrapType::NoWrap => 0.0, WrapType::Minus => -1.0, WrapType::Plus => 1.0 } }

    /// false: refused
    fn grids(g: &mut Rng) -> bool {
        use crate::components::Position;
        use crate::domain::decomposition::{Decomposition, KeyCounter};
        use crate::domain::IntoKey;
        use crate::particle::HaloParticle;
        use crate::units::{Length, VecLength};
        use bevy_ecs::prelude::{Commands, Entity, Res};
        let ranks = *g.pick(&[1, 1, 2, 3, 4]);
        let m = g.range(4, 8) as usize;
        let l = *g.pick(&[1.0, 0.3, 1e20]);
        let side = l * if g.below(3) == 0 { Point3d::new(1.0, g.float(0.75, 1.3), g.float(0.75, 1.3)) } else { Point3d::ONE };
        let o = *g.pick(&[0.0, 0.1, -0.5]) * l;
        let periodic = g.bool();
        let jitter = *g.pick(&[0.99, 0.9, 0.5, 1e-3]);
        let radius = match g.below(3) { 0 => Some(g.float(0.1, 0.35) * l), _ => None };
        let p: Vec<Point3d> = (0..m * m * m).map(|i| (Point3d::new((i % m) as f64, (i / m % m) as f64, (i / m / m) as f64) + 0.5 + (cube(g) - 0.5) * jitter) / m as f64 * side + o).collect();
        // who has which particle: by the key, as the decomposition does it
        let v = |p: Point3d| VecLength::new_unchecked(p);
        let ext = crate::domain::Extent::from_min_max(v(Point3d::splat(o)), v(side + o));
        let keys: Vec<_> = p.iter().map(|p| v(*p).into_key(&ext)).collect();
        let deco = { let k = keys.clone(); move || -> crate::domain::DecompositionState { Decomposition::new(&mut KeyCounter::new(k.clone()), ranks) } };
        let owner: Vec<i32> = { let d = deco(); keys.iter().map(|k| d.get_owning_rank(*k)).collect() };
        let mut count = vec![0; ranks];
        let ids: Vec<ParticleId> = owner.iter().map(|r| { count[*r as usize] += 1; ParticleId { index: count[*r as usize] - 1, rank: *r } }).collect();
        let input = || format!("{ranks} ranks, a box from {o} of the sides {side:?}, periodic: {periodic}, initial search radius {radius:?}, particles at {p:?}");
        case(ranks > 1, input);
        let (p2, ids2, ext2) = (p.clone(), ids.clone(), ext.clone());
        type Out = (Vec<(ParticleId, Vec<GridCell>)>, Vec<(i32, Point3d, ParticleId)>);
        let (_, res) = mpi::simulate(ranks, move |rank| -> Out {
            let mine: Vec<usize> = (0..p2.len()).filter(|i| ids2[*i].rank == rank).collect();
            let pos: Vec<Position> = mine.iter().map(|i| Position(v(p2[*i]))).collect();
            let id: Vec<ParticleId> = mine.iter().map(|i| ids2[*i]).collect();
            let mut d = deco();
            crate::domain::systems::vx_set_extents(&mut d, pos.iter().collect());
            let leaf: Vec<crate::domain::LeafData> = mine.iter().map(|i| crate::domain::LeafData { id: ids2[*i], pos: v(p2[*i]) }).collect();
            let box_ = crate::simulation_box::SimulationBox::new(ext2.clone());
            let tree = crate::domain::QuadTree::new(&crate::quadtree::QuadTreeConfig { max_depth: 20, max_num_particles_per_leaf: 3 }, leaf, &ext2);
            let map: crate::domain::IdEntityMap = id.iter().enumerate().map(|(k, i)| (*i, Entity(k as u64))).collect();
            let commands = Commands::default();
            let q: Vec<(Entity, &ParticleId, &Position)> = (0..id.len()).map(|k| (Entity(k as u64), &id[k], &pos[k])).collect();
            let sweep = crate::parameters::SweepParameters { periodic };
            let gp = super::constructor::parallel::plugin::GridParameters { initial_search_radius: radius.map(Length::new_unchecked) };
            super::construct_grid_system(commands.clone(), crate::prelude::Particles(q), Res(&tree), Res(&d), Res(&box_), Res(&map), Res(&sweep), Res(&gp));
            let e = commands.entities.borrow();
            let cells = id.iter().enumerate().map(|(k, i)| (*i, e.get(k).map(|v| v.iter().filter_map(|b| b.downcast_ref::<GridCell>().cloned()).collect()).unwrap_or_default())).collect();
            let haloes = commands.spawned.borrow().iter().map(|b| {
                let h = b.iter().find_map(|x| x.downcast_ref::<HaloParticle>()).map(|h| h.rank);
                let p = b.iter().find_map(|x| x.downcast_ref::<Position>()).map(|p| p.0.value_unchecked());
                let i = b.iter().find_map(|x| x.downcast_ref::<ParticleId>()).copied();
                (h.unwrap_or(-1), p.unwrap_or(Point3d::NAN), i.unwrap_or(ParticleId { index: u32::MAX, rank: -1 }))
            }).collect();
            (cells, haloes)
        });
        let images: Vec<([f64; 3], usize, Point3d)> = [0.0, -1.0, 1.0].iter().flat_map(|x| [0.0, -1.0, 1.0].map(|y| (*x, y))).flat_map(|(x, y)| [0.0, -1.0, 1.0].map(|z| [x, y, z])).flat_map(|w| p.iter().enumerate().map(move |(i, p)| (w, i, *p + Point3d::from_array(w) * side)).collect::<Vec<_>>()).collect();
        let flat: Vec<Point3d> = images.iter().map(|i| i.2).collect();
        // the code refuses points that are not in general position, and boxes with so few particles that an image is seen twice
        if res.iter().any(|r| matches!(r, Err(e) if e.contains("Degenerate") || e.contains("two periodic images"))) { return false }
        let mut total = 0.0;
        for (rank, r) in res.into_iter().enumerate() {
            let (cells, haloes) = match r {
                Ok(r) => r,
                Err(e) => violated("every rank constructs its grid", &input(), &format!("rank {rank}: {e}")),
            };
            for (rk, x, i) in &haloes {
                let ok = ids.contains(i) && *rk == i.rank && *rk != rank as i32 && { let q = p[ids.iter().position(|j| j == i).unwrap()]; ((*x - q) / side).to_array().iter().all(|s| (s - s.round()).abs() < 1e-9) };
                check("a halo is a particle of another rank, or an image of it, with the rank that has it", ok, input, || format!("rank {rank}: {i:?} of rank {rk} at {x:?}"));
            }
            for (id, c) in &cells {
                check("every particle gets one cell", c.len() == 1, input, || format!("rank {rank}: {} for {id:?}", c.len()));
                let c = &c[0];
                let k = ids.iter().position(|j| j == id).unwrap();
                let real = cell(p[k], &flat).unwrap();
                // towards whom: what the neighbour is, its identifier, its image
                let label = |i: usize| -> String {
                    let (w, j, _) = images[i];
                    let wrapped = w != [0.0; 3];
                    let local = ids[j].rank == rank as i32;
                    if wrapped && !periodic { return "Boundary".into() }
                    format!("{}{} {:?} {w:?}", if local { "Local" } else { "Remote" }, if wrapped { "Periodic" } else { "" }, ids[j])
                };
                let want: Vec<_> = real.faces.iter().map(|f| (label(f.to), f.area, f.normal)).collect();
                let wt = |w: crate::simulation_box::PeriodicWrapType3d| [sign(w.x), sign(w.y), sign(w.z)];
                let got: Vec<_> = c.neighbours.iter().map(|(f, t)| (match t {
                    ParticleType::Local(i) => format!("Local {i:?} {:?}", [0.0; 3]),
                    ParticleType::Remote(n) => { check("a remote neighbour is on the rank that has it", n.rank == n.id.rank, input, || format!("{:?} {}", n.id, n.rank)); format!("Remote {:?} {:?}", n.id, [0.0; 3]) }
                    ParticleType::Boundary => "Boundary".into(),
                    ParticleType::LocalPeriodic(n) => format!("LocalPeriodic {:?} {:?}", n.id, wt(n.periodic_wrap_type)),
                    ParticleType::RemotePeriodic(n) => { check("a remote neighbour is on the rank that has it", n.rank == n.id.rank, input, || format!("{:?} {}", n.id, n.rank)); format!("RemotePeriodic {:?} {:?}", n.id, wt(n.periodic_wrap_type)) }
                }, f.area.value_unchecked(), f.normal.value_unchecked())).collect();
                same_faces(&format!("rank {rank}, {id:?}"), &got, &want, real.reach, &input);
                check("the volume of a cell is that of the Voronoi cell of its particle in the periodic box", close(c.volume.value_unchecked(), real.volume(), real.reach.powi(3), 1e-6), input, || format!("rank {rank}, {id:?}: {:?} instead of {}", c.volume, real.volume()));
                total += c.volume.value_unchecked();
                for f in &real.faces {
                    let (w, j, _) = images[f.to];
                    if ids[j].rank == rank as i32 || (w != [0.0; 3] && !periodic) || f.area < 1e-4 * real.reach * real.reach { continue }
                    check("there is a halo for every neighbour of a local cell that is on another rank", haloes.iter().any(|h| h.2 == ids[j]), input, || format!("rank {rank}: none for {:?}", ids[j]));
                }
            }
        }
        check("the cells of all ranks fill the box", close(total, side.x * side.y * side.z, l * l * l, 1e-6), input, || format!("{total} instead of {}", side.x * side.y * side.z));
        true
    }

    pub fn run() {
        quiet();
        let mut g = Rng::new(seed());
        let k = if thorough() { 10 } else { 1 };
        for _ in 0..2000 * k { degenerate(&mut g) }
        for _ in 0..80 * k { triangulations(&mut g) }
        for _ in 0..80 * k { cells(&mut g) }
        let n = 40 * k;
        let decided = (0..n).filter(|_| grids(&mut g)).count();
        check("grids of particles at random places are constructed, save where images line up", decided * 3 > n, || format!("{n} boxes of the seed {}", seed()), || format!("only {decided} are"));
        done()
    }
}
