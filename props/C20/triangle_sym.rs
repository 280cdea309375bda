// Contract of the predicates on triangles, over the reals.
pub mod vx {
    use super::*;
    use symx::*;

    fn v2(n: &str) -> Point2d { Point2d::new(R::var(&format!("{n}x")), R::var(&format!("{n}y"))) }
    fn v3(n: &str) -> Point3d { Point3d::new(R::var(&format!("{n}x")), R::var(&format!("{n}y")), R::var(&format!("{n}z"))) }
    fn dot2(a: Point2d, b: Point2d) -> R { a.x * b.x + a.y * b.y }
    fn dot(a: Point3d, b: Point3d) -> R { a.x * b.x + a.y * b.y + a.z * b.z }
    fn det2(a: Point2d, b: Point2d) -> R { a.x * b.y - a.y * b.x }
    fn det3(a: Point3d, b: Point3d, c: Point3d) -> R { a.x * (b.y * c.z - b.z * c.y) - a.y * (b.x * c.z - b.z * c.x) + a.z * (b.x * c.y - b.y * c.x) }
    fn tri<P: Copy>(q: &[P; 3]) -> TriangleData<P> { TriangleData { p1: q[0], p2: q[1], p3: q[2] } }
    fn incircle(q: &[Point2d; 3], e: Point2d) -> R {
        let (a, b, c) = (q[0] - e, q[1] - e, q[2] - e);
        dot2(a, a) * det2(b, c) - dot2(b, b) * det2(a, c) + dot2(c, c) * det2(a, b)
    }

    pub fn run() {
        abs_as_variable(true);
        z3_timeout_ms(200);
        explore("contains", 500, || {
            let (o, a, b, r, s) = (v2("o"), v2("a"), v2("b"), R::var("r"), R::var("s"));
            assume(det2(a, b) != R::int(0));
            let t = R::int(1) - (r + s);
            for x in [r, s, t] { assume(x != R::int(0)) }
            let c = tri(&[o, o + a, o + b]).contains(o + a * r + b * s);
            ensure("a triangle contains exactly the points with positive coordinates, whatever the order of its vertices", c == (r > R::int(0) && s > R::int(0) && t > R::int(0)));
        });
        explore("oracle", 10, || {
            let (e, a, b, c) = (v2("e"), v2("a"), v2("b"), v2("c"));
            let (q, o) = ([e + a, e + b, e + c], det2(b - a, c - a));
            let (b, c) = (b - a, c - a);
            let (sb, sc) = (dot2(b, b) / R::int(2), dot2(c, c) / R::int(2));
            let m = Point2d::new(sb * c.y - sc * b.y, b.x * sc - c.x * sb);
            for w in [b, c] { ensure_eq("lemma: the oracle's center has the same distance from all vertices (2D)", dot2(m, w) * R::int(2), dot2(w, w) * o) }
            let f = -a;
            ensure_eq("lemma: the oracle of the circle test is the power of the point times the orientation", incircle(&q, e), dot2(f, m) * R::int(2) - dot2(f, f) * o);
        });
        for zero in 0..7 {
            // coordinate differences: all different from zero, then each of them zero
            explore("incircle", 500, || {
                let (e, o) = (v2("e"), R::int(0));
                let x: Vec<R> = (0..6).map(|i| if i + 1 == zero { o } else { R::var(&format!("d{i}")) }).collect();
                for (i, d) in x.iter().enumerate() { if i + 1 != zero { assume(*d != o) } }
                let a = e - Point2d::new(x[4], x[5]);
                let q = [a, a + Point2d::new(x[0], x[1]), a + Point2d::new(x[2], x[3])];
                assume(det2(q[1] - a, q[2] - a) > o);
                let i = incircle(&q, e);
                assume(i != o);
                ensure("the circumcircle test is right for every positively oriented triangle and point", tri(&q).circumcircle_contains(e) == (i > o));
            });
        }
        explore("center", 200, || {
            let (o, a, b) = (v2("o"), v2("a"), v2("b"));
            assume(det2(a, b) != R::int(0));
            let c = tri(&[o, o + a, o + b]).get_center_of_circumcircle() - o;
            for w in [a, b] { ensure_eq("the center of the circumcircle has the same distance from all vertices", dot2(c, w) * R::int(2), dot2(w, w)) }
        });
        explore("line", 3000, || {
            let (o, a, b, k, r, s, t) = (v3("o"), v3("a"), v3("b"), v3("k"), R::var("r"), R::var("s"), R::var("t"));
            assume(det3(a, b, k) != R::int(0));
            let u = R::int(1) - (r + s);
            for x in [r, s, u] { assume(x != R::int(0)) }
            let q1 = o + a * r + b * s - k * t;
            let got = tri(&[o, o + a, o + b]).get_line_intersection_type(q1, q1 + k);
            let out: Vec<EdgeIdentifier> = [(u, EdgeIdentifier::One), (r, EdgeIdentifier::Two), (s, EdgeIdentifier::Three)].iter().filter(|x| x.0 < R::int(0)).map(|x| x.1).collect();
            let ok = match got { IntersectionType::Inside => out.is_empty(), IntersectionType::OutsideOneEdge(x) => out == vec![x], IntersectionType::OutsideTwoEdges(x, y) => out.len() == 2 && x != y && out.contains(&x) && out.contains(&y) };
            ensure("a line passes outside exactly the edges it is said to", ok);
        });
        z3_timeout_ms(4000);
        for f in 0..3 {
            explore("closest point", 500, || {
                let turn = |x: [R; 3]| Point3d::new(x[f], x[(f + 1) % 3], x[(f + 2) % 3]);
                let (o, l, m, h) = (v3("o"), R::var("l"), R::var("m"), R::var("h"));
                assume(l > R::int(0)); assume(h != R::int(0));
                let z = R::int(0);
                let (ab, ac, ap) = (turn([l, z, z]), turn([m, h, z]), turn([R::var("x"), R::var("y"), R::var("z")]));
                let c = tri(&[o, o + ab, o + ac]).closest_point(o + ap) - o;
                // coordinates of c in the triangle
                let c3 = c.to_array();
                let back = [c3[(3 - f) % 3], c3[(4 - f) % 3], c3[(5 - f) % 3]];
                ensure_eq("the closest point is in the plane of the triangle", back[2], z);
                let w = back[1] / h;
                let v = (back[0] - m * w) / l;
                ensure_le("the closest point is in the triangle", z, v);
                ensure_le("the closest point is in the triangle", z, w);
                ensure_le("the closest point is in the triangle", v + w, R::int(1));
                for q in [turn([z, z, z]), ab, ac] { ensure_le("no point of the triangle is closer", dot(ap - c, q - c), z) }
            });
        }
        explore("all encompassing", 100, || {
            let (m, d) = (v2("m"), v2("d"));
            for x in [d.x, d.y] { assume(x > R::int(0)) }
            let t = TriangleData::<Point2d>::all_encompassing(&Extent::from_min_max(m, m + d));
            let q = [t.p1, t.p2, t.p3];
            ensure_lt("the initial triangle is positively oriented", R::int(0), det2(q[1] - q[0], q[2] - q[0]));
            for k in 0..4 {
                let e = m + Point2d::new(d.x * R::int(k & 1), d.y * R::int(k >> 1));
                for i in 0..3 { let mut p = q; p[i] = e; ensure_lt("the initial triangle strictly contains the extent", R::int(0), det2(p[1] - p[0], p[2] - p[0])) }
            }
        });
        explore("remap", 100, || {
            let (m, d, r) = (v2("m"), v2("d"), v2("r"));
            for x in [d.x, d.y] { assume(x > R::int(0)) }
            for x in [r.x, r.y] { assume(x >= R::int(0)); assume(x <= R::int(1)) }
            let p = <TwoD as crate::dimension::Dimension>::remap_point(m + d * r, &Extent::from_min_max(m, m + d));
            let longest = [d.x, d.y].into_iter().reduce(|a, b| if a >= b { a } else { b }).unwrap();
            for (a, b) in p.to_array().iter().zip((d * r).to_array()) { ensure_eq("remapping scales all coordinates alike and takes the longest side of the extent to [1, 2] (2D)", (*a - R::int(1)) * longest, b) }
        });
    }
}
