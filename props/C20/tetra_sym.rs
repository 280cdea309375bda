// Contract of the predicates on tetrahedra, over the reals.
pub mod vx {
    use super::*;
    use symx::*;

    fn v(n: &str) -> Point3d { Point3d::new(R::var(&format!("{n}x")), R::var(&format!("{n}y")), R::var(&format!("{n}z"))) }
    fn dot(a: Point3d, b: Point3d) -> R { a.x * b.x + a.y * b.y + a.z * b.z }
    fn det3(a: Point3d, b: Point3d, c: Point3d) -> R { a.x * (b.y * c.z - b.z * c.y) - a.y * (b.x * c.z - b.z * c.x) + a.z * (b.x * c.y - b.y * c.x) }
    /// six times the signed volume
    fn orient(a: Point3d, b: Point3d, c: Point3d, d: Point3d) -> R { det3(b - a, c - a, d - a) }
    /// positive iff e is inside the sphere through a, b, c, d, where orient(a, b, c, d) > 0
    fn insphere(q: &[Point3d; 4], e: Point3d) -> R {
        let w: Vec<Point3d> = q.iter().map(|p| *p - e).collect();
        // rows (w_i, |w_i|^2), expanded along the last column
        let mut s = R::int(0);
        for i in 0..4 {
            let r: Vec<Point3d> = (0..4).filter(|j| *j != i).map(|j| w[j]).collect();
            let m = dot(w[i], w[i]) * det3(r[0], r[1], r[2]);
            s = if (i + 3) % 2 == 0 { s + m } else { s - m };
        }
        -s
    }
    fn tetra(q: &[Point3d; 4]) -> TetrahedronData { TetrahedronData { p1: q[0], p2: q[1], p3: q[2], p4: q[3] } }
    /// Four vertices given relative to the point e.
    fn around(e: Point3d) -> [Point3d; 4] { [e + v("a"), e + v("b"), e + v("c"), e + v("d")] }

    pub fn run() {
        abs_as_variable(true);
        z3_timeout_ms(60);
        explore("oracle", 10, || {
            // the sphere through a, b, c, d by its equations; insphere is its power times the orientation
            let e = v("e");
            let q = around(e);
            let (b, c, d) = (q[1] - q[0], q[2] - q[0], q[3] - q[0]);
            let o = det3(b, c, d);
            assume(o > R::int(0));
            let sq = Point3d::new(dot(b, b) / R::int(2), dot(c, c) / R::int(2), dot(d, d) / R::int(2));
            let (x, y, z) = (Point3d::new(b.x, c.x, d.x), Point3d::new(b.y, c.y, d.y), Point3d::new(b.z, c.z, d.z));
            let m = Point3d::new(det3(sq, y, z), det3(x, sq, z), det3(x, y, sq)); // o * (center - a), by Cramer's rule
            for w in [b, c, d] { ensure_eq("lemma: the oracle's center has the same distance from all vertices", dot(m, w) * R::int(2), dot(w, w) * o) }
            // o * (r^2 - |e - center|^2) = o * (2 (e - a).(center - a) - |e - a|^2)
            let f = e - q[0];
            ensure_eq("lemma: the oracle of the sphere test is the power of the point times the orientation", insphere(&q, e), dot(f, m) * R::int(2) - dot(f, f) * o);
        });
        explore("insphere", 200, || {
            let e = v("e");
            let q = around(e);
            let (o, i) = (orient(q[0], q[1], q[2], q[3]), insphere(&q, e));
            assume(o > R::int(0));
            assume(i != R::int(0));
            let r = tetra(&q).circumcircle_contains(e);
            ensure("the circumsphere test is right for every positively oriented tetrahedron and point", r == (i > R::int(0)));
        });
        explore("contains", 4000, || {
            let e = v("e");
            let q = around(e);
            let o = orient(q[0], q[1], q[2], q[3]);
            assume(o != R::int(0));
            let s: Vec<R> = (0..4).map(|i| { let mut p = q; p[i] = e; orient(p[0], p[1], p[2], p[3]) }).collect();
            for x in &s { assume(*x != R::int(0)) }
            let r = tetra(&q).contains(e);
            let pos = o > R::int(0);
            ensure("a tetrahedron contains exactly the points on the inner side of all faces, whatever the order of its vertices", r == s.iter().all(|x| (*x > R::int(0)) == pos));
        });
        explore("center", 6000, || {
            let e = v("e");
            let q = [e, e + v("b"), e + v("c"), e + v("d")];
            assume(orient(q[0], q[1], q[2], q[3]) != R::int(0));
            let c = tetra(&q).get_center_of_circumcircle();
            for w in &q[1..] { let w = *w - q[0]; ensure_eq("the center of the circumsphere has the same distance from all vertices", dot(c - q[0], w) * R::int(2), dot(w, w)) }
        });
        z3_timeout_ms(4000);
        explore("all encompassing", 100, || {
            let (m, d) = (v("m"), v("d"));
            for x in [d.x, d.y, d.z] { assume(x > R::int(0)) }
            let t = TetrahedronData::all_encompassing(&Extent::from_min_max(m, m + d));
            let q = [t.p1, t.p2, t.p3, t.p4];
            ensure_lt("the initial tetrahedron is positively oriented", R::int(0), orient(q[0], q[1], q[2], q[3]));
            for k in 0..8 {
                let b = |i: i64| R::int(k >> i & 1);
                let e = m + Point3d::new(d.x * b(0), d.y * b(1), d.z * b(2));
                for i in 0..4 { let mut p = q; p[i] = e; ensure_lt("the initial tetrahedron strictly contains the extent", R::int(0), orient(p[0], p[1], p[2], p[3])) }
            }
        });
        explore("remap", 100, || {
            let (m, d, r) = (v("m"), v("d"), v("r"));
            for x in [d.x, d.y, d.z] { assume(x > R::int(0)) }
            for x in [r.x, r.y, r.z] { assume(x >= R::int(0)); assume(x <= R::int(1)) }
            let p = <ThreeD as crate::dimension::Dimension>::remap_point(m + d * r, &Extent::from_min_max(m, m + d));
            let longest = [d.x, d.y, d.z].into_iter().reduce(|a, b| if a >= b { a } else { b }).unwrap();
            for (a, b) in p.to_array().iter().zip((d * r).to_array()) { ensure_eq("remapping scales all coordinates alike and takes the longest side of the extent to [1, 2]", (*a - R::int(1)) * longest, b) }
        });
    }
}
