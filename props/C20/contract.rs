// Executable contract of the geometric predicates, against exact rational arithmetic.
pub mod vx {
    use crate::dimension::{Dimension, ThreeD, TwoD};
    use crate::extent::Extent;
    use crate::voronoi::delaunay::dimension::DTetraData;
    use crate::voronoi::primitives::polygon3d::Polygon3d;
    use crate::voronoi::primitives::tetrahedron::TetrahedronData;
    use crate::voronoi::primitives::triangle::{EdgeIdentifier, IntersectionType, Triangle, TriangleData};
    use crate::voronoi::utils::{arrange_cyclic_by, periodic_windows_2};
    use crate::voronoi::{Point2d, Point3d, PointIndex};
    use num::{BigRational as Q, Signed, ToPrimitive, Zero};
    use vxcore::*;

    type V = [Q; 3];
    fn q(x: f64) -> Q { Q::from_float(x).unwrap() }
    fn ex(p: Point3d) -> V { [q(p.x), q(p.y), q(p.z)] }
    fn ex2(p: Point2d) -> V { [q(p.x), q(p.y), Q::zero()] }
    fn sub(a: &V, b: &V) -> V { [&a[0] - &b[0], &a[1] - &b[1], &a[2] - &b[2]] }
    fn dot(a: &V, b: &V) -> Q { &a[0] * &b[0] + &a[1] * &b[1] + &a[2] * &b[2] }
    fn cross(a: &V, b: &V) -> V { [&a[1] * &b[2] - &a[2] * &b[1], &a[2] * &b[0] - &a[0] * &b[2], &a[0] * &b[1] - &a[1] * &b[0]] }
    fn det3(a: &V, b: &V, c: &V) -> Q { dot(a, &cross(b, c)) }
    fn orient(a: &V, b: &V, c: &V, d: &V) -> Q { det3(&sub(b, a), &sub(c, a), &sub(d, a)) }
    fn f(x: &Q) -> f64 { x.to_f64().unwrap() }
    fn sgn(x: &Q) -> i32 { if x.is_zero() { 0 } else if x.is_positive() { 1 } else { -1 } }

    /// sign of (radius^2 - distance^2) of e and the sphere through the vertices, times the orientation
    fn insphere(t: &[V; 4], e: &V) -> Q {
        let w: Vec<V> = t.iter().map(|p| sub(p, e)).collect();
        let mut s = Q::zero();
        for i in 0..4 {
            let r: Vec<&V> = (0..4).filter(|j| *j != i).map(|j| &w[j]).collect();
            let m = dot(&w[i], &w[i]) * det3(r[0], r[1], r[2]);
            s = if i % 2 == 0 { s + m } else { s - m };
        }
        s
    }
    fn tetra(p: &[Point3d; 4]) -> TetrahedronData { TetrahedronData { p1: p[0], p2: p[1], p3: p[2], p4: p[3] } }
    const PERM: [[usize; 4]; 24] = {
        let mut r = [[0; 4]; 24];
        let (mut n, mut a) = (0, 0);
        while a < 256 { let p = [a & 3, a >> 2 & 3, a >> 4 & 3, a >> 6]; if p[0] != p[1] && p[0] != p[2] && p[0] != p[3] && p[1] != p[2] && p[1] != p[3] && p[2] != p[3] { r[n] = p; n += 1 } a += 1 }
        r
    };

    fn unit(g: &mut Rng) -> Point3d { loop { let v = Point3d::new(g.float(-1.0, 1.0), g.float(-1.0, 1.0), g.float(-1.0, 1.0)); if v.length() > 0.1 && v.length() < 1.0 { return v.normalize() } } }
    fn bump(x: f64, k: i64) -> f64 { if x == 0.0 { k as f64 * 1e-17 } else { f64::from_bits((x.to_bits() as i64 + k) as u64) } }
    fn jiggle(g: &mut Rng, p: Point3d) -> Point3d { let mut k = || g.range(-2, 2); Point3d::new(bump(p.x, k()), bump(p.y, k()), bump(p.z, k())) }
    fn cube(g: &mut Rng, o: f64, s: f64) -> Point3d { Point3d::new(o + s * g.unit(), o + s * g.unit(), o + s * g.unit()) }
    fn lattice(g: &mut Rng, o: f64, s: f64, n: i64) -> Point3d { let mut k = || o + s * g.range(0, n) as f64; Point3d::new(k(), k(), k()) }

    /// A positively oriented tetrahedron and a point near its circumsphere, in various degrees.
    fn sphere_case(g: &mut Rng) -> ([Point3d; 4], Point3d) {
        loop {
            let (o, s) = *g.pick(&[(1.0, 1.0), (1.0, 0.5), (1.25, 1e-2), (1.7, 1e-4), (1.3, 1e-7), (0.0, 1.0), (-1.0, 2.0), (0.0, 1e-10), (0.0, 1e10), (1e3, 1.0)]);
            let mut t = [Point3d::new(0.0, 0.0, 0.0); 4];
            let e;
            match g.below(5) {
                0 => { for p in &mut t { *p = cube(g, o, s) } e = cube(g, o, s) }
                1 => { for p in &mut t { *p = lattice(g, o, s / 4.0, 3) } e = lattice(g, o, s / 4.0, 3) }
                2 => { for p in &mut t { let l = lattice(g, o, s / 4.0, 2); *p = jiggle(g, l) } let l = lattice(g, o, s / 4.0, 2); e = jiggle(g, l) }
                3 => { let c = cube(g, o, s); for p in &mut t { *p = c + unit(g) * (s / 3.0) } e = c + unit(g) * (s / 3.0) }
                _ => { let c = cube(g, o, s); for p in &mut t { *p = c + unit(g) * (s / 3.0) } e = c + unit(g) * (s / 3.0 * (1.0 + g.float(-1.0, 1.0) * 10f64.powi(g.range(-17, -2) as i32))) }
            }
            if t.contains(&e) { continue }
            let x = t.map(ex);
            let v = orient(&x[0], &x[1], &x[2], &x[3]);
            if v.is_zero() { continue }
            if v.is_negative() { t.swap(2, 3) }
            return (t, e);
        }
    }

    fn spheres(g: &mut Rng) {
        let (t, e) = sphere_case(g);
        let i = insphere(&t.map(ex), &ex(e));
        if i.is_zero() { return }
        let input = || format!("tetrahedron {t:?}, point {e:?}");
        case(true, input);
        for p in PERM {
            // even permutations keep the orientation
            let inv = (0..4).map(|a| (0..a).filter(|b| p[*b] > p[a]).count()).sum::<usize>();
            if inv % 2 == 1 { continue }
            let u = p.map(|k| t[k]);
            let r = guarded("circumsphere test: no panic", input, || tetra(&u).circumcircle_contains(e));
            check("the circumsphere test of a tetrahedron is exact, however close the point is to the sphere", r == i.is_positive(), input, || format!("{r} with vertices in the order {p:?}; radius^2 - distance^2 times the volume is {:e}", f(&i)));
        }
    }

    fn contained(g: &mut Rng) {
        // remapped coordinates and edges of at most 1/2: exact; elsewhere: outside of rounding error
        let (o, s, exact) = *g.pick(&[(1.0, 0.5, true), (1.0, 0.25, true), (1.5, 0.5, true), (1.2, 1e-2, true), (1.9, 1e-3, true), (1.4, 1e-6, true), (1.0, 1.0, false), (0.0, 1.0, false), (-100.0, 200.0, false), (0.0, 1e3, false)]);
        let mut t = [Point3d::new(0.0, 0.0, 0.0); 4];
        let e;
        match g.below(5) {
            0 => { for p in &mut t { *p = cube(g, o, s) } e = cube(g, o, s) }
            1 => { for p in &mut t { *p = lattice(g, o, s / 4.0, 3) } e = lattice(g, o, s / 4.0, 3) }
            2 => { for p in &mut t { *p = lattice(g, o, s / 4.0, 3) } let (i, j, l) = (g.below(4) as usize, g.below(4) as usize, g.below(4) as usize); e = jiggle(g, (t[i] + t[j] + t[l]) / 3.0) }
            3 => { for p in &mut t { *p = cube(g, o, s) } let w: Vec<f64> = (0..4).map(|_| if g.below(3) == 0 { 10f64.powi(g.range(-17, 0) as i32) * g.float(-1.0, 1.0) } else { g.unit() }).collect(); let n: f64 = w.iter().sum(); e = t.iter().zip(&w).fold(Point3d::new(0.0, 0.0, 0.0), |a, (p, w)| a + *p * (*w / n)) }
            _ => { for p in &mut t { *p = cube(g, o, s) } let h = 10f64.powi(g.range(-16, -1) as i32) * s; t[3] = t[0] + (t[1] - t[0]) * g.unit() + (t[2] - t[0]) * g.unit() + Point3d::new(0.0, 0.0, h); e = (t[0] + t[1] + t[2] + t[3]) / 4.0 + unit(g) * (s * 10f64.powi(g.range(-16, -1) as i32)) }
        }
        if !e.is_finite() || e.distance(t[0]) > 4.0 * s { return }
        if exact && (t.iter().chain([&e]).any(|p| p.to_array().iter().any(|x| *x < 1.0 || *x > 2.0)) || t.iter().any(|a| t.iter().chain([&e]).any(|b| (*a - *b).abs().max_element() > 0.5))) { return }
        let x = t.map(ex);
        let y = ex(e);
        let v = orient(&x[0], &x[1], &x[2], &x[3]);
        let w: Vec<Q> = (0..4).map(|i| { let mut u = x.clone(); u[i] = y.clone(); orient(&u[0], &u[1], &u[2], &u[3]) }).collect();
        if v.is_zero() || w.iter().any(|w| w.is_zero()) { return }
        let size = t.iter().chain([&e]).map(|p| p.abs().max_element()).fold(0.0, f64::max);
        if !exact && w.iter().chain([&v]).any(|w| f(&w.abs()) < 1e-13 * size.powi(3)) { return }
        let want = w.iter().all(|w| sgn(w) == sgn(&v));
        let input = || format!("tetrahedron {t:?}, point {e:?}");
        case(true, input);
        for p in PERM {
            let r = guarded("containment: no panic", input, || tetra(&p.map(|k| t[k])).contains(e));
            check("a tetrahedron contains exactly the points on the inner side of all its faces, whatever the order of its vertices", r == want, input, || format!("{r} with vertices in the order {p:?}"));
        }
        let d = guarded("distance: no panic", input, || tetra(&t).distance_to_point(e));
        let m = [[0, 1, 2], [0, 1, 3], [0, 2, 3], [1, 2, 3]].iter().map(|k| tri_distance(&[&x[k[0]], &x[k[1]], &x[k[2]]], &y)).fold(f64::INFINITY, f64::min);
        if f(&v.abs()) > 1e-6 * s.powi(3) { check("the distance to a tetrahedron is zero inside and the distance to the nearest face outside", if want { d == 0.0 } else { close(d, m, s, 1e-7) }, input, || format!("{d} instead of {}", if want { 0.0 } else { m })) }
    }

    /// distance of y from a triangle, from exact arithmetic
    fn tri_distance(t: &[&V; 3], y: &V) -> f64 {
        let mut best: Option<Q> = None;
        let mut put = |d: Q| if best.as_ref().map(|b| d < *b).unwrap_or(true) { best = Some(d) };
        for i in 0..3 {
            let (a, b) = (t[i], t[(i + 1) % 3]);
            let (ab, ap) = (sub(b, a), sub(y, a));
            put(dot(&ap, &ap));
            let l = dot(&ab, &ab);
            if l.is_zero() { continue }
            let k = dot(&ap, &ab);
            if k.is_positive() && k < l { put(dot(&ap, &ap) - &k * &k / l) }
        }
        let (ab, ac, ap) = (sub(t[1], t[0]), sub(t[2], t[0]), sub(y, t[0]));
        let n = cross(&ab, &ac);
        let nn = dot(&n, &n);
        if !nn.is_zero() {
            let (r, s) = (dot(&cross(&ap, &ac), &n), dot(&cross(&ab, &ap), &n));
            if !r.is_negative() && !s.is_negative() && &r + &s <= nn { let h = dot(&ap, &n); put(&h * &h / nn) }
        }
        f(&best.unwrap()).sqrt()
    }

    fn distances(g: &mut Rng) {
        let (o, s) = *g.pick(&[(1.0, 1.0), (0.0, 1.0), (-10.0, 20.0), (1.3, 1e-3), (100.0, 1.0)]);
        let t = if g.bool() { [cube(g, o, s), cube(g, o, s), cube(g, o, s)] } else { [lattice(g, o, s / 2.0, 2), lattice(g, o, s / 2.0, 2), lattice(g, o, s / 2.0, 2)] };
        let n = (t[1] - t[0]).cross(t[2] - t[0]);
        if n.length() < 1e-3 * s * s { return }
        let e = match g.below(5) {
            0 => cube(g, o, s),
            1 => cube(g, o - 3.0 * s, 7.0 * s),
            2 => lattice(g, o - s, s / 2.0, 6),
            // over a point of the plane, over an edge, over a vertex
            3 => { let (r, q) = (g.float(-1.0, 2.0), g.float(-1.0, 2.0)); t[0] + (t[1] - t[0]) * r + (t[2] - t[0]) * q + n.normalize() * (s * g.float(-1.0, 1.0)) }
            _ => { let i = g.below(3) as usize; t[i] + (t[(i + 1) % 3] - t[i]) * g.float(-0.5, 1.5) + (t[(i + 2) % 3] - t[i]) * (-0.3 * g.unit()) + n.normalize() * (s * g.float(-1.0, 1.0)) }
        };
        let input = || format!("triangle {t:?}, point {e:?}");
        case(true, input);
        let x = t.map(ex);
        let m = tri_distance(&[&x[0], &x[1], &x[2]], &ex(e));
        for p in [[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]] {
            let d = guarded("distance to a triangle: no panic", input, || TriangleData { p1: t[p[0]], p2: t[p[1]], p3: t[p[2]] }.distance_to_point(e));
            check("the distance to a triangle is the smallest distance of its points", close(d, m, s + o.abs(), 1e-9), input, || format!("{d} instead of {m} with vertices in the order {p:?}"));
        }
    }

    fn centers(g: &mut Rng) {
        let (o, s) = *g.pick(&[(1.0, 1.0), (1.0, 0.3), (1.2, 1e-2), (1.5, 1e-4), (1.7, 1e-7), (-1.0, 2.0)]);
        let mut t = [cube(g, o, s), cube(g, o, s), cube(g, o, s), cube(g, o, s)];
        if g.below(3) == 0 { t = t.map(|_| lattice(g, o, s / 4.0, 3)) }
        if g.below(3) == 0 { let (a, b) = (g.float(0.2, 1.2), g.float(0.2, 1.2)); t[3] = t[0] + (t[1] - t[0]) * a + (t[2] - t[0]) * b + Point3d::new(0.0, 0.0, s * 10f64.powi(g.range(-14, -1) as i32)) }
        let x = t.map(ex);
        let v = orient(&x[0], &x[1], &x[2], &x[3]);
        let edges = [[0, 1], [0, 2], [0, 3], [1, 2], [1, 3], [2, 3]].map(|k| t[k[0]].distance(t[k[1]]));
        let areas = [[0, 1, 2], [0, 1, 3], [0, 2, 3], [1, 2, 3]].map(|k| (t[k[1]] - t[k[0]]).cross(t[k[2]] - t[k[0]]).length());
        if v.is_zero() || edges.iter().any(|e| *e < 0.2 * s) || areas.iter().any(|a| *a < 0.05 * s * s) { return }
        let (b, c, d) = (sub(&x[1], &x[0]), sub(&x[2], &x[0]), sub(&x[3], &x[0]));
        let two = q(2.0);
        // 2 v (center - x0) = |b|^2 c x d + |c|^2 d x b + |d|^2 b x c
        let (cd, db, bc) = (cross(&c, &d), cross(&d, &b), cross(&b, &c));
        let want: Vec<Q> = (0..3).map(|i| (dot(&b, &b) * &cd[i] + dot(&c, &c) * &db[i] + dot(&d, &d) * &bc[i]) / (&two * &v) + &x[0][i]).collect();
        let w = Point3d::new(f(&want[0]), f(&want[1]), f(&want[2]));
        let r = w.distance(t[0]);
        let input = || format!("tetrahedron {t:?}");
        case(true, input);
        let z = guarded("circumsphere center: no panic", input, || tetra(&t).get_center_of_circumcircle());
        check("the center of the circumsphere has the same distance from all vertices", z.distance(w) <= 1e-5 * r + 1e-14 * (1.0 + o.abs()), input, || format!("{z:?} instead of {w:?} (radius {r})"));
        let ext = tetra(&t).extent();
        check("the extent of a tetrahedron is the box around its vertices", (0..3).all(|i| ext.min[i] == t.iter().map(|p| p[i]).fold(f64::INFINITY, f64::min) && ext.max[i] == t.iter().map(|p| p[i]).fold(f64::NEG_INFINITY, f64::max)), input, || format!("{:?} to {:?}", ext.min, ext.max));
    }

    fn flat(p: Point3d) -> Point2d { Point2d::new(p.x, p.y) }
    fn plane(g: &mut Rng) {
        let (o, s) = *g.pick(&[(1.0, 1.0), (1.0, 0.5), (0.0, 1.0), (-10.0, 20.0)]);
        let dyadic = g.below(3) == 0;
        // right triangles with legs that are powers of two: the float computation has no rounding error
        let t = if dyadic { let (x, y) = (1.0 + g.range(0, 8) as f64 / 8.0, 1.0 + g.range(0, 8) as f64 / 8.0); let (l, m) = (0.5f64.powi(g.range(0, 6) as i32), 0.5f64.powi(g.range(0, 6) as i32)); [Point2d::new(x, y), Point2d::new(x + l, y), Point2d::new(x, y + m)] } else { [flat(cube(g, o, s)), flat(cube(g, o, s)), flat(cube(g, o, s))] };
        let e = match g.below(4) {
            0 => flat(cube(g, o, s)),
            1 => { let (r, q) = (g.float(-0.5, 1.5), g.float(-0.5, 1.5)); t[0] + (t[1] - t[0]) * r + (t[2] - t[0]) * q }
            2 => { let i = g.below(3) as usize; let m = t[i] + (t[(i + 1) % 3] - t[i]) * 0.5f64.powi(g.range(1, 3) as i32); Point2d::new(bump(m.x, g.range(-3, 3)), bump(m.y, g.range(-3, 3))) }
            _ => { let i = g.below(3) as usize; let m = t[i] + (t[(i + 1) % 3] - t[i]) * g.unit(); m + Point2d::new(g.float(-1.0, 1.0), g.float(-1.0, 1.0)) * (s * 10f64.powi(g.range(-13, -1) as i32)) }
        };
        let x = t.map(ex2);
        let y = ex2(e);
        let area = |a: &V, b: &V, c: &V| { let (u, w) = (sub(b, a), sub(c, a)); &u[0] * &w[1] - &u[1] * &w[0] };
        let v = area(&x[0], &x[1], &x[2]);
        if f(&v.abs()) < 1e-2 * s * s && !dyadic || v.is_zero() { return }
        let w: Vec<Q> = (0..3).map(|i| { let mut u = x.clone(); u[i] = y.clone(); area(&u[0], &u[1], &u[2]) }).collect();
        let input = || format!("triangle {t:?}, point {e:?}");
        let safe = |p: &Q| if dyadic { !p.is_zero() } else { f(&p.abs()) > 1e-11 * (s + o.abs()).powi(2) };
        if w.iter().all(safe) {
            case(true, input);
            let want = w.iter().all(|w| sgn(w) == sgn(&v));
            for p in [[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]] {
                if dyadic && p[0] != 0 { continue }
                let r = guarded("2D containment: no panic", input, || TriangleData { p1: t[p[0]], p2: t[p[1]], p3: t[p[2]] }.contains(e));
                check("a triangle contains exactly the points on the inner side of all its edges, whatever the order of its vertices", r == want, input, || format!("{r} with vertices in the order {p:?}"));
            }
        }
        // a line through e across the same triangle in a tilted plane; edges by the vertex opposite
        if w.iter().all(safe) && sgn(&v) != 0 {
            let lift = |p: Point2d| if dyadic { Point3d::new(p.x, p.y, 1.0) } else { Point3d::new(p.x, p.y, 0.25 * p.x - 0.5 * p.y) };
            let (k, h) = (if dyadic { Point3d::new(0.0, 0.0, 1.0) } else { unit(g) }, lift(e));
            let n = (lift(t[1]) - lift(t[0])).cross(lift(t[2]) - lift(t[0])).normalize();
            let near = !dyadic && w.iter().any(|w| f(&(w / &v)).abs() < 1e-9);
            if k.dot(n).abs() > 0.2 && !near {
                let out: Vec<usize> = (0..3).filter(|i| sgn(&w[*i]) != sgn(&v)).collect();
                for p in [[0usize, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]] {
                    if dyadic && p[0] != 0 { continue }
                    let (q1, q2) = (h - k * 0.5, h + k * 0.5);
                    let r = guarded("line intersection: no panic", input, || TriangleData { p1: lift(t[p[0]]), p2: lift(t[p[1]]), p3: lift(t[p[2]]) }.get_line_intersection_type(q1, q2));
                    let id = |i: EdgeIdentifier| p[match i { EdgeIdentifier::One => 0, EdgeIdentifier::Two => 1, EdgeIdentifier::Three => 2 }];
                    let mut got = match r { IntersectionType::Inside => vec![], IntersectionType::OutsideOneEdge(a) => vec![id(a)], IntersectionType::OutsideTwoEdges(a, b) => vec![id(a), id(b)] };
                    got.sort();
                    check("a line passes outside exactly the edges it is said to", got == out, || format!("triangle {t:?} lifted, line {q1:?} {q2:?}"), || format!("outside the edges opposite of {got:?} instead of {out:?}"));
                }
            }
        }
        // circumcircle, center and signed distance, for the positively oriented triangle
        let u = if v.is_negative() { [t[0], t[2], t[1]] } else { t };
        let z = u.map(ex2);
        let mut c = [Q::zero(), Q::zero(), Q::zero()];
        let d: Vec<V> = z.iter().map(|p| sub(p, &y)).collect();
        for i in 0..3 { let (a, b) = (&d[(i + 1) % 3], &d[(i + 2) % 3]); c[i] = dot(&d[i], &d[i]) * (&a[0] * &b[1] - &a[1] * &b[0]) }
        let i = &c[0] + &c[1] + &c[2];
        if if dyadic { f(&i.abs()) > 1e-13 } else { f(&i.abs()) > 1e-10 * (s + o.abs()).powi(4) } {
            for p in [[0, 1, 2], [1, 2, 0], [2, 0, 1]] {
                let r = guarded("circumcircle test: no panic", input, || TriangleData { p1: u[p[0]], p2: u[p[1]], p3: u[p[2]] }.circumcircle_contains(e));
                check("the circumcircle test of a positively oriented triangle is right", r == i.is_positive(), input, || format!("{r} with vertices in the order {p:?}"));
            }
        }
        let tt = TriangleData { p1: u[0], p2: u[1], p3: u[2] };
        let k = guarded("circumcircle center: no panic", input, || tt.get_center_of_circumcircle());
        let r = k.distance(u[0]);
        check("the center of the circumcircle has the same distance from all vertices", u.iter().all(|p| close(p.distance(k), r, r + o.abs() + s, 1e-8)), input, || format!("{k:?}"));
        let dist = guarded("2D distance: no panic", input, || tt.distance_to_point(e));
        let sides: f64 = (0..3).map(|i| { let (a, b) = (&z[i], &z[(i + 1) % 3]); -f(&area(a, b, &y)) / u[i].distance(u[(i + 1) % 3]) }).fold(f64::NEG_INFINITY, f64::max);
        check("the signed distance to a positively oriented triangle is the largest of the signed distances to its sides", close(dist, sides, s + o.abs(), 1e-9), input, || format!("{dist} instead of {sides}"));
        let ext = tt.extent();
        check("the extent of a triangle is the box around its vertices", (0..2).all(|i| ext.min[i] == u.iter().map(|p| p[i]).fold(f64::INFINITY, f64::min) && ext.max[i] == u.iter().map(|p| p[i]).fold(f64::NEG_INFINITY, f64::max)), input, || format!("{:?} to {:?}", ext.min, ext.max));
    }

    fn initial(g: &mut Rng) {
        let scale = |g: &mut Rng| 10f64.powi(g.range(-3, 6) as i32) * g.float(0.5, 5.0);
        let common = if g.bool() { Some(scale(g)) } else { None };
        let d = Point3d::new(common.unwrap_or_else(|| scale(g)), common.unwrap_or_else(|| scale(g)), common.unwrap_or_else(|| scale(g)));
        let m = Point3d::new(g.float(-2.0, 2.0) * d.x, g.float(-2.0, 2.0) * d.y, g.float(-2.0, 2.0) * d.z);
        let e3 = Extent::from_min_max(m, m + d);
        let e2 = Extent::from_min_max(flat(m), flat(m + d));
        let input = || format!("extent {:?} to {:?}", e3.min, e3.max);
        case(true, input);
        let t = guarded("initial tetrahedron: no panic", input, || TetrahedronData::all_encompassing(&e3));
        let s = guarded("initial triangle: no panic", input, || TriangleData::<Point2d>::all_encompassing(&e2));
        let x = [t.p1, t.p2, t.p3, t.p4].map(ex);
        let y = [s.p1, s.p2, s.p3].map(ex2);
        let area = |a: &V, b: &V, c: &V| { let (u, w) = (sub(b, a), sub(c, a)); &u[0] * &w[1] - &u[1] * &w[0] };
        check("the initial simplex is positively oriented", orient(&x[0], &x[1], &x[2], &x[3]).is_positive() && area(&y[0], &y[1], &y[2]).is_positive(), input, || format!("{t:?} {s:?}"));
        for k in 0..8 {
            let c = Point3d::new(if k & 1 == 0 { e3.min.x } else { e3.max.x }, if k & 2 == 0 { e3.min.y } else { e3.max.y }, if k & 4 == 0 { e3.min.z } else { e3.max.z });
            let r = (0..4).all(|i| { let mut u = x.clone(); u[i] = ex(c); orient(&u[0], &u[1], &u[2], &u[3]).is_positive() });
            check("the initial simplex strictly contains the extent", r, input, || format!("corner {c:?} is not in {t:?}"));
            let r = (0..3).all(|i| { let mut u = y.clone(); u[i] = ex2(flat(c)); area(&u[0], &u[1], &u[2]).is_positive() });
            check("the initial simplex strictly contains the extent", r, input, || format!("corner {:?} is not in {s:?}", flat(c)));
        }
        let r = Point3d::new(g.unit(), g.unit(), g.unit());
        let r = if g.below(3) == 0 { r.round() } else { r };
        let p = (e3.min + (e3.max - e3.min) * r).min(e3.max);
        let z = guarded("remapping: no panic", input, || ThreeD::remap_point(p, &e3));
        let z2 = guarded("remapping: no panic", input, || TwoD::remap_point(flat(p), &e2));
        for i in 0..3 {
            // one factor for all coordinates: that of the longest side
            let side = |n: usize| (0..n).map(|k| q(e3.max[k]) - q(e3.min[k])).max().unwrap();
            let (want, want2) = (1.0 + f(&((q(p[i]) - q(e3.min[i])) / side(3))), 1.0 + f(&((q(p[i]) - q(e3.min[i])) / side(2))));
            check("remapping scales all coordinates alike and takes the longest side of the extent to [1, 2]", (z[i] - want).abs() <= 1e-15 && (i > 1 || (z2[i] - want2).abs() <= 1e-15), || format!("{p:?} in {:?} to {:?}", e3.min, e3.max), || format!("{z:?} {z2:?} instead of {want} {want2} in coordinate {i}"));
        }
    }

    fn rings(g: &mut Rng) {
        // a convex polygon in some plane: points on an ellipse
        let n = g.range(3, 12) as usize;
        let (a, o) = (unit(g), cube(g, -1.0, 2.0));
        let b = a.cross(unit(g));
        if b.length() < 0.1 { return }
        let (b, ra, rb) = (b.normalize(), g.float(0.1, 3.0), g.float(0.1, 3.0));
        let mut angles: Vec<f64> = (0..n).map(|_| g.float(0.0, 6.283)).collect();
        angles.sort_by(|x, y| x.partial_cmp(y).unwrap());
        let uv: Vec<(f64, f64)> = angles.iter().map(|t| (ra * t.cos(), rb * t.sin())).collect();
        let want = 0.5 * (0..n).map(|i| { let (p, q) = (uv[i], uv[(i + 1) % n]); p.0 * q.1 - p.1 * q.0 }).sum::<f64>().abs();
        let pts: Vec<Point3d> = uv.iter().map(|(u, v)| o + a * *u + b * *v).collect();
        let input = || format!("polygon {pts:?}");
        case(true, input);
        for k in 0..n {
            let mut r = pts.clone();
            r.rotate_left(k);
            if k % 2 == 1 { r.reverse() }
            let x = guarded("area: no panic", input, || Polygon3d { points: r }.area());
            check("the area of a convex polygon, whichever vertex is first", close(x, want, 10.0, 1e-12), input, || format!("{x} instead of {want}, starting at vertex {k}"));
        }
        // successive pairs
        for n in 0..9usize {
            let v: Vec<usize> = (0..n).collect();
            let input = || format!("windows of {v:?}");
            let got: Vec<(usize, usize)> = guarded("windows: no panic", input, || periodic_windows_2(&v).map(|(a, b)| (*a, *b)).collect());
            let want: Vec<(usize, usize)> = if n < 2 { vec![] } else { (0..n).map(|i| (i, (i + 1) % n)).collect() };
            check("periodic windows are the successive pairs including (last, first)", got == want, input, || format!("{got:?}"));
            // items 0..n in a ring, in any order in the slice
            let mut items = v.clone();
            g.shuffle(&mut items);
            let related = |a: &usize, b: &usize| n == 2 || (a + 1) % n == *b || (b + 1) % n == *a;
            let input = || format!("ring of {n}, given as {items:?}");
            let got: Vec<(usize, usize)> = guarded("ring: no panic", input, || arrange_cyclic_by(&items, related).map(|(a, b)| (*a, *b)).collect());
            let mut first: Vec<usize> = got.iter().map(|x| x.0).collect();
            let mut second: Vec<usize> = got.iter().map(|x| x.1).collect();
            let chained = got.windows(2).all(|w| w[0].1 == w[1].0);
            first.sort(); second.sort();
            let all: Vec<usize> = if n < 2 { vec![] } else { v.clone() };
            check("arranging in a ring visits every item once, from neighbour to neighbour", first == all && second == all && chained && got.iter().all(|(a, b)| related(a, b)), input, || format!("{got:?}"));
        }
        let t = Triangle { p1: PointIndex(1), p2: PointIndex(2), p3: PointIndex(3) };
        for (i, e) in [EdgeIdentifier::One, EdgeIdentifier::Two, EdgeIdentifier::Three].into_iter().enumerate() {
            let (o, (a, b)) = (t.get_point_opposite(e).0, t.get_points_of(e));
            let mut s = vec![o, a.0, b.0];
            s.sort();
            check("the ends of an edge and the point opposite of it are the triangle", o == i + 1 && s == vec![1, 2, 3], || format!("edge {e:?}"), || format!("{o} {a:?} {b:?}"));
        }
    }

    pub fn run() {
        quiet();
        let mut g = Rng::new(seed());
        let n = if thorough() { 40 } else { 1 };
        for _ in 0..3000 * n { spheres(&mut g) }
        for _ in 0..4000 * n { contained(&mut g) }
        for _ in 0..4000 * n { distances(&mut g) }
        for _ in 0..6000 * n { centers(&mut g) }
        for _ in 0..10000 * n { plane(&mut g) }
        for _ in 0..500 * n { initial(&mut g) }
        for _ in 0..200 * n { rings(&mut g) }
        done()
    }
}
