// Contract of bounding boxes, over the reals.
pub mod vx {
    use super::*;
    use crate::extent::get_extent_from_min_and_max_reduce;
    use glam::{DVec2, DVec3};
    use symx::*;

    pub trait V: Copy { const D: usize; fn var(n: &str) -> Self; fn c(&self, i: usize) -> R; }
    impl V for R { const D: usize = 1; fn var(n: &str) -> R { R::var(n) } fn c(&self, _: usize) -> R { *self } }
    impl V for DVec2 { const D: usize = 2; fn var(n: &str) -> Self { DVec2::new(R::var(&format!("{n}x")), R::var(&format!("{n}y"))) } fn c(&self, i: usize) -> R { self.to_array()[i] } }
    impl V for DVec3 { const D: usize = 3; fn var(n: &str) -> Self { DVec3::new(R::var(&format!("{n}x")), R::var(&format!("{n}y")), R::var(&format!("{n}z"))) } fn c(&self, i: usize) -> R { self.to_array()[i] } }
    impl V for Vec2Length { const D: usize = 2; fn var(n: &str) -> Self { Vec2Length::new_unchecked(DVec2::var(n)) } fn c(&self, i: usize) -> R { self.value_unchecked().to_array()[i] } }
    impl V for Vec3Length { const D: usize = 3; fn var(n: &str) -> Self { Vec3Length::new_unchecked(DVec3::var(n)) } fn c(&self, i: usize) -> R { self.value_unchecked().to_array()[i] } }

    /// smallest box around the points, with its center in the middle
    fn bounds<P: V>(name: &str, e: Option<VExtent<P>>, points: &[P]) {
        if points.is_empty() { ensure(&format!("{name}: no box for no points"), e.is_none()); return }
        ensure(&format!("{name}: a box for points"), e.is_some());
        let Some(e) = e else { return };
        for i in 0..P::D {
            for p in points {
                ensure_le(&format!("{name}: every point is inside"), e.min.c(i), p.c(i));
                ensure_le(&format!("{name}: every point is inside"), p.c(i), e.max.c(i));
            }
            ensure(&format!("{name}: the box is the smallest one"), points.iter().any(|p| p.c(i).identical(e.min.c(i)) || p.c(i) == e.min.c(i)) && points.iter().any(|p| p.c(i).identical(e.max.c(i)) || p.c(i) == e.max.c(i)));
        }
        middle(name, &e);
    }
    fn middle<P: V>(name: &str, e: &VExtent<P>) { for i in 0..P::D { ensure_eq(&format!("{name}: the center is in the middle"), e.center.c(i) + e.center.c(i), e.min.c(i) + e.max.c(i)) } }
    fn ordered<P: V>(a: &P, b: &P) { for i in 0..P::D { assume(a.c(i) <= b.c(i)) } }
    fn same<P: V>(name: &str, a: &P, b: &[R]) { for i in 0..P::D { ensure_eq(name, a.c(i), b[i]) } }

    macro_rules! any_dimension { ($p: ty, $t: literal) => {
        explore(concat!("box ", $t), 2000, || {
            let (a, b) = (<$p>::var("a"), <$p>::var("b"));
            ordered(&a, &b);
            let e = VExtent::from_min_max(a, b);
            for i in 0..<$p as V>::D { ensure_eq(concat!($t, ": a box has the given corners"), e.min.c(i), a.c(i)); ensure_eq(concat!($t, ": a box has the given corners"), e.max.c(i), b.c(i)); ensure_eq(concat!($t, ": side lengths"), e.side_lengths().c(i), b.c(i) - a.c(i)); ensure_eq(concat!($t, ": center()"), e.center().c(i), e.center.c(i)) }
            middle($t, &e);
            let big = e.including_periodic_images();
            middle(concat!($t, ": enlarged box"), &big);
            for i in 0..<$p as V>::D {
                let l = b.c(i) - a.c(i);
                // images are the points moved by -1, 0 or 1 box lengths in each coordinate
                for k in -1..=1 {
                    ensure_le(concat!($t, ": the enlarged box contains all images"), big.min.c(i), a.c(i) + l * R::int(k));
                    ensure_le(concat!($t, ": the enlarged box contains all images"), b.c(i) + l * R::int(k), big.max.c(i));
                }
                ensure_eq(concat!($t, ": the enlarged box is three times as large"), big.max.c(i) - big.min.c(i), l * R::int(3));
            }
        });
    } }
    macro_rules! units { ($e: ident, $u: ident, $m: ident, $n: literal, $t: literal, $spec: ident, $corners: literal) => {
        for n in 0..=$n {
            explore(concat!("positions ", $t), 60000, || {
                let p: Vec<$u> = (0..n).map(|i| $u::var(&format!("p{i}"))).collect();
                bounds(concat!($t, " box of positions"), $e::from_positions(p.iter()), &p);
            });
            explore(concat!("points ", $t), 60000, || {
                let p: Vec<$m> = (0..n).map(|i| $m::var(&format!("p{i}"))).collect();
                bounds(concat!($t, " box of points"), VExtent::<$m>::from_points(p.iter().cloned()), &p);
            });
        }
        explore(concat!("boxes ", $t), 60000, || {
            let es: Vec<$e> = (0..2).map(|i| { let (a, b) = ($u::var(&format!("a{i}")), $u::var(&format!("b{i}"))); ordered(&a, &b); $e::from_min_max(a, b) }).collect();
            let c: Vec<$u> = es.iter().flat_map(|e| [e.min, e.max]).collect();
            bounds(concat!($t, " box around boxes"), $e::get_all_encompassing(es.iter()), &c);
        });
        explore(concat!("no boxes ", $t), 10, || ensure(concat!($t, " box around boxes: no box for no points"), $e::get_all_encompassing([].iter()).is_none()));
        explore(concat!("cubes ", $t), 100, || {
            let s = R::var("s");
            let l = Length::new_unchecked(s);
            let z = vec![R::int(0); 3];
            for (e, lo) in [($e::cube_from_side_length(l), R::int(0)), ($e::cube_from_side_length_centered(l), -s / R::int(2)), (<$e>::from($spec::SideLength(l)), R::int(0))] {
                for i in 0..<$u as V>::D { ensure_eq(concat!($t, ": a cube has its side length in place"), e.min.c(i), lo); ensure_eq(concat!($t, ": a cube has its side length in place"), e.max.c(i) - e.min.c(i), s) }
                middle(concat!($t, " cube"), &e);
            }
            let (a, b) = ($u::var("a"), $u::var("b"));
            let e = <$e>::from($spec::MinMax { min: a, max: b });
            for i in 0..<$u as V>::D { ensure_eq(concat!($t, ": a box as specified"), e.min.c(i), a.c(i)); ensure_eq(concat!($t, ": a box as specified"), e.max.c(i), b.c(i)) }
            let e = <$e>::from($spec::Size(b));
            for i in 0..<$u as V>::D { ensure_eq(concat!($t, ": a box as specified"), e.min.c(i), R::int(0)); ensure_eq(concat!($t, ": a box as specified"), e.max.c(i), b.c(i)) }
        });
        explore(concat!("contains ", $t), 4000, || {
            let (a, b, p) = ($u::var("a"), $u::var("b"), $u::var("p"));
            ordered(&a, &b);
            let e = $e::from_min_max(a, b);
            let r = e.contains(&p);
            let want = (0..<$u as V>::D).all(|i| a.c(i) <= p.c(i) && p.c(i) <= b.c(i));
            ensure(concat!($t, ": contains exactly the points between the corners"), r == want);
            let m = VExtent::<$m>::from_min_max(a.value_unchecked(), b.value_unchecked());
            ensure(concat!($t, ": contains exactly the points between the corners (plain numbers)"), m.contains(&p.value_unchecked()) == want);
        });
        explore(concat!("contains box ", $t), 20000, || {
            let (a, b, c, d) = ($m::var("a"), $m::var("b"), $m::var("c"), $m::var("d"));
            ordered(&a, &b);
            ordered(&c, &d);
            let r = VExtent::from_min_max(a, b).contains_extent(&VExtent::from_min_max(c, d));
            let want = (0..<$m as V>::D).all(|i| a.c(i) <= c.c(i) && d.c(i) <= b.c(i));
            ensure(concat!($t, ": contains exactly the boxes between the corners"), r == want);
        });
        explore(concat!("sphere ", $t), 100, || {
            let (c, r) = ($m::var("c"), R::var("r"));
            assume(r >= R::int(0));
            let e = VExtent::<$m>::cube_around_sphere(c, r);
            for i in 0..<$m as V>::D { ensure_eq(concat!($t, ": cube around a sphere"), e.min.c(i), c.c(i) - r); ensure_eq(concat!($t, ": cube around a sphere"), e.max.c(i), c.c(i) + r); ensure_eq(concat!($t, ": cube around a sphere"), e.center.c(i), c.c(i)) }
        });
        explore(concat!("corners ", $t), 100, || {
            let (a, b) = ($m::var("a"), $m::var("b"));
            for i in 0..<$m as V>::D { assume(a.c(i) < b.c(i)) }
            let p = VExtent::<$m>::from_min_max(a, b).get_extreme_points();
            // every choice of the lower or upper end in each coordinate occurs once
            for k in 0..$corners as usize {
                let n = p.iter().filter(|p| (0..<$m as V>::D).all(|i| p.c(i).identical(if k >> i & 1 == 1 { b.c(i) } else { a.c(i) }))).count();
                ensure(concat!($t, ": the corners are all the corners"), n == 1 && p.len() == $corners);
            }
        });
        explore(concat!("quadrants ", $t), 20000, || {
            let (a, b, p) = ($u::var("a"), $u::var("b"), $u::var("p"));
            for i in 0..<$u as V>::D { assume(a.c(i) < b.c(i)); assume(a.c(i) <= p.c(i)); assume(p.c(i) <= b.c(i)) }
            let e = $e::from_min_max(a, b);
            let q = e.get_quadrants();
            let k = e.get_quadrant_index(&p);
            ensure(concat!($t, ": there are 2^d quadrants and the index is one of them"), q.len() == $corners && k < $corners);
            if k >= q.len() { return }
            for i in 0..<$u as V>::D {
                ensure_le(concat!($t, ": a point is in the quadrant selected for it"), q[k].min.c(i), p.c(i));
                ensure_le(concat!($t, ": a point is in the quadrant selected for it"), p.c(i), q[k].max.c(i));
            }
        });
        explore(concat!("quadrants tile ", $t), 20000, || {
            let (a, b) = ($u::var("a"), $u::var("b"));
            for i in 0..<$u as V>::D { assume(a.c(i) < b.c(i)) }
            let e = $e::from_min_max(a, b);
            let q = e.get_quadrants();
            let mut vol = R::int(0);
            for (j, x) in q.iter().enumerate() {
                middle(concat!($t, " quadrant"), x);
                vol = vol + x.volume().value_unchecked();
                for i in 0..<$u as V>::D {
                    ensure_le(concat!($t, ": quadrants are inside the box"), a.c(i), x.min.c(i));
                    ensure_le(concat!($t, ": quadrants are inside the box"), x.max.c(i), b.c(i));
                    ensure_le(concat!($t, ": quadrants are not empty"), x.min.c(i), x.max.c(i));
                }
                ensure(concat!($t, ": the center of a quadrant selects it"), e.get_quadrant_index(&x.center) == j);
                for y in &q[..j] { ensure(concat!($t, ": quadrants do not overlap"), (0..<$u as V>::D).any(|i| x.max.c(i) <= y.min.c(i) || y.max.c(i) <= x.min.c(i))) }
            }
            ensure_eq(concat!($t, ": the quadrants' volumes add up"), vol, e.volume().value_unchecked());
            let mut v = R::int(1);
            for i in 0..<$u as V>::D { v = v * (b.c(i) - a.c(i)) }
            ensure_eq(concat!($t, ": volume"), e.volume().value_unchecked(), v);
        });
        explore(concat!("longest side ", $t), 2000, || {
            let (a, b) = ($u::var("a"), $u::var("b"));
            ordered(&a, &b);
            let l = $e::from_min_max(a, b).max_side_length().value_unchecked();
            let m = VExtent::<$m>::from_min_max(a.value_unchecked(), b.value_unchecked()).max_side_length();
            for x in [l, m] {
                for i in 0..<$u as V>::D { ensure_le(concat!($t, ": the longest side"), b.c(i) - a.c(i), x) }
                ensure(concat!($t, ": the longest side is a side"), (0..<$u as V>::D).any(|i| (b.c(i) - a.c(i)) == x));
            }
        });
    } }

    pub fn run() {
        any_dimension!(R, "1D");
        any_dimension!(DVec2, "2D");
        any_dimension!(DVec3, "3D");
        any_dimension!(Vec3Length, "3D with units");
        for n in 0..=4 {
            explore("points 1D", 20000, || {
                let p: Vec<R> = (0..n).map(|i| R::var(&format!("p{i}"))).collect();
                bounds("1D box of points", VExtent::<R>::from_points(p.iter().cloned()), &p);
                bounds("1D box by reduction", get_extent_from_min_and_max_reduce(p.iter().cloned(), R::min, R::max), &p);
            });
        }
        units!(Extent2d, Vec2Length, DVec2, 3, "2D", ExtentSpecification2d, 4);
        units!(Extent3d, Vec3Length, DVec3, 2, "3D", ExtentSpecification3d, 8);
        report();
    }
}
