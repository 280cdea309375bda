// Executable contract of bounding boxes.
pub mod vx {
    use super::*;
    use crate::extent::get_extent_from_min_and_max_reduce;
    use crate::voronoi::MinMax;
    use glam::{DVec2, DVec3};
    use vxcore::*;

    pub trait V: Copy + std::fmt::Debug { const D: usize; fn of(x: [f64; 3]) -> Self; fn c(&self, i: usize) -> f64; }
    impl V for f64 { const D: usize = 1; fn of(x: [f64; 3]) -> f64 { x[0] } fn c(&self, _: usize) -> f64 { *self } }
    impl V for DVec2 { const D: usize = 2; fn of(x: [f64; 3]) -> Self { DVec2::new(x[0], x[1]) } fn c(&self, i: usize) -> f64 { self[i] } }
    impl V for DVec3 { const D: usize = 3; fn of(x: [f64; 3]) -> Self { DVec3::from(x) } fn c(&self, i: usize) -> f64 { self[i] } }
    impl V for Vec2Length { const D: usize = 2; fn of(x: [f64; 3]) -> Self { Vec2Length::new_unchecked(DVec2::of(x)) } fn c(&self, i: usize) -> f64 { self.value_unchecked()[i] } }
    impl V for Vec3Length { const D: usize = 3; fn of(x: [f64; 3]) -> Self { Vec3Length::new_unchecked(DVec3::of(x)) } fn c(&self, i: usize) -> f64 { self.value_unchecked()[i] } }

    fn coord(g: &mut Rng, kind: u64) -> f64 {
        match kind { 0 => g.range(-2, 2) as f64, 1 => g.float(-1.0, 1.0), 2 => g.float(-1.0, 1.0) * 10f64.powi(g.range(-20, 20) as i32), 3 => g.float(5.0, 6.0), 4 => g.float(-6.0, -5.0), _ => *g.pick(&[0.0, -0.0, 1.0, -1.0, 1e300, -1e300, 1e-300]) }
    }
    fn point(g: &mut Rng, kind: u64) -> [f64; 3] { [coord(g, kind), coord(g, kind), coord(g, kind)] }

    fn is_center<P: V>(e: &VExtent<P>, input: &dyn Fn() -> String) {
        for i in 0..P::D {
            let (a, b, c) = (e.min.c(i), e.max.c(i), e.center.c(i));
            check("the center is in the middle", close(c, a / 2.0 + b / 2.0, a.abs().max(b.abs()), 1e-15) && c >= a.min(b) && c <= a.max(b), input, || format!("center {c} of {a}..{b}"));
        }
    }
    fn smallest<P: V>(what: &str, e: Option<VExtent<P>>, p: &[P]) {
        let input = || format!("{what} of {p:?}");
        case(p.len() > 1, input);
        let Some(e) = e else { check("a box for points", p.is_empty(), input, || "none".into()); return };
        check("no box for no points", !p.is_empty(), input, || format!("{:?}..{:?}", e.min, e.max));
        for i in 0..P::D {
            let (lo, hi) = p.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(a, b), x| (a.min(x.c(i)), b.max(x.c(i))));
            check("the box is the smallest one containing every point", e.min.c(i) == lo && e.max.c(i) == hi, input, || format!("{:?}..{:?}", e.min, e.max));
        }
        is_center(&e, &input);
    }

    fn points<P: V + MinMax + std::ops::Div<f64, Output = P> + std::ops::Add<P, Output = P> + std::ops::Sub<P, Output = P>>(g: &mut Rng, n: usize) {
        let kind = g.below(6);
        let p: Vec<P> = (0..n).map(|_| P::of(point(g, kind))).collect();
        let input = || format!("points {p:?}");
        smallest("box", guarded("from_points: no panic", input, || VExtent::<P>::from_points(p.iter().cloned())), &p);
        smallest("reduction", guarded("reduction: no panic", input, || get_extent_from_min_and_max_reduce(p.iter().cloned(), P::min, P::max)), &p);
        if n >= 2 && kind != 5 && kind != 2 {
            let e = VExtent::<P>::from_points(p.iter().cloned()).unwrap();
            let big = guarded("including_periodic_images: no panic", input, || e.including_periodic_images());
            for i in 0..P::D {
                let (a, b) = (e.min.c(i), e.max.c(i));
                let l = b - a;
                let t = 1e-14 * (a.abs() + b.abs() + l);
                check("the enlarged box contains all images and is three times as large", (big.min.c(i) - (a - l)).abs() <= t && (big.max.c(i) - (b + l)).abs() <= t, input, || format!("{:?}..{:?}", big.min, big.max));
                check("side lengths", e.side_lengths().c(i) == l, input, || format!("{:?}", e.side_lengths()));
                check("center()", e.center().c(i) == e.center.c(i), input, || format!("{:?}", e.center()));
            }
            is_center(&big, &input);
        }
    }

    macro_rules! boxes { ($f: ident, $e: ident, $u: ident, $m: ident, $n: literal, $spec: ident) => {
        fn $f(g: &mut Rng) {
            let kind = g.below(5);
            let n = g.below(20) as usize;
            let p: Vec<$u> = (0..n).map(|_| $u::of(point(g, kind))).collect();
            let input = || format!("positions {p:?}");
            smallest("box of positions", guarded("from_positions: no panic", input, || $e::from_positions(p.iter())), &p);
            let es: Vec<$e> = (0..g.below(5)).map(|_| { let q: Vec<$u> = (0..2).map(|_| $u::of(point(g, kind))).collect(); $e::from_positions(q.iter()).unwrap() }).collect();
            let c: Vec<$u> = es.iter().flat_map(|e| [e.min, e.max]).collect();
            smallest("box around boxes", guarded("get_all_encompassing: no panic", || format!("{c:?}"), || $e::get_all_encompassing(es.iter())), &c);
            let (mut lo, mut hi) = (point(g, kind), point(g, kind));
            for i in 0..3 { if lo[i] > hi[i] { std::mem::swap(&mut lo[i], &mut hi[i]) } if lo[i] == hi[i] { hi[i] += lo[i].abs().max(1.0) } }
            let e = $e::from_min_max($u::of(lo), $u::of(hi));
            let m = VExtent::<$m>::from_min_max($m::of(lo), $m::of(hi));
            let bx = || format!("box {lo:?}..{hi:?}");
            case(true, bx);
            is_center(&e, &bx);
            let qs = guarded("get_quadrants: no panic", bx, || e.get_quadrants());
            check("there are 2^d quadrants", qs.len() == $n, bx, || format!("{}", qs.len()));
            for (j, x) in qs.iter().enumerate() {
                is_center(x, &bx);
                for i in 0..<$u as V>::D {
                    let (a, b, c) = (e.min.c(i), e.max.c(i), e.center.c(i));
                    check("a quadrant is one half of the box in each coordinate", (x.min.c(i), x.max.c(i)) == (a, c) || (x.min.c(i), x.max.c(i)) == (c, b), bx, || format!("quadrant {j}: {:?}..{:?}", x.min, x.max));
                }
                for (k, y) in qs.iter().enumerate() { check("quadrants do not overlap", j == k || (0..<$u as V>::D).any(|i| x.max.c(i) <= y.min.c(i) || y.max.c(i) <= x.min.c(i)), bx, || format!("quadrants {j} and {k}")) }
            }
            for _ in 0..8 {
                let mut p = [0.0; 3];
                for i in 0..3 { p[i] = match g.below(6) { 0 => lo[i], 1 => hi[i], 2 => if i < <$u as V>::D { e.center.c(i) } else { 0.0 }, _ => g.float(lo[i], hi[i]).clamp(lo[i], hi[i]) } }
                let pt = || format!("{} point {p:?}", bx());
                let k = guarded("get_quadrant_index: no panic", pt, || e.get_quadrant_index(&$u::of(p)));
                check("a point is in the quadrant selected for it", k < $n && (0..<$u as V>::D).all(|i| qs[k].min.c(i) <= p[i] && p[i] <= qs[k].max.c(i)), pt, || format!("{k}"));
                check("a box contains its points", e.contains(&$u::of(p)) && m.contains(&$m::of(p)), pt, || "not contained".into());
                let j = g.below(<$u as V>::D as u64) as usize;
                let mut q = p;
                let d = (hi[j] - lo[j]).max(1e-3 * hi[j].abs()).max(1e-3 * lo[j].abs());
                q[j] = if g.bool() { hi[j] + d * g.float(0.01, 3.0) } else { lo[j] - d * g.float(0.01, 3.0) };
                check("a box contains no other points", !e.contains(&$u::of(q)) && !m.contains(&$m::of(q)), || format!("{} point {q:?}", bx()), || "contained".into());
                let inner = VExtent::<$m>::from_points([$m::of(p), m.center].into_iter()).unwrap();
                check("a box contains the boxes inside it", m.contains_extent(&inner), pt, || "not contained".into());
                let outer = VExtent::<$m>::from_points([$m::of(q), m.center].into_iter()).unwrap();
                check("a box does not contain boxes reaching out of it", !m.contains_extent(&outer), || format!("{} box up to {q:?}", bx()), || "contained".into());
            }
            let vol: f64 = (0..<$u as V>::D).map(|i| hi[i] - lo[i]).product();
            check("volume", close(e.volume().value_unchecked(), vol, vol, 1e-12), bx, || format!("{:?}", e.volume()));
            let long = (0..<$u as V>::D).map(|i| hi[i] - lo[i]).fold(0.0, f64::max);
            check("the longest side", close(e.max_side_length().value_unchecked(), long, long, 1e-13) && close(m.max_side_length(), long, long, 1e-13), bx, || format!("{:?} {:?}", e.max_side_length(), m.max_side_length()));
            let corners = m.get_extreme_points();
            for k in 0..$n as usize { check("the corners are all the corners", corners.len() == $n && corners.iter().filter(|p| (0..<$m as V>::D).all(|i| p.c(i) == if k >> i & 1 == 1 { hi[i] } else { lo[i] })).count() == 1, bx, || format!("{corners:?}")) }
            let s = g.float(0.1, 50.0);
            let cube = || format!("side {s}");
            let l = Length::new_unchecked(s);
            for (x, at) in [($e::cube_from_side_length(l), 0.0), ($e::cube_from_side_length_centered(l), -s / 2.0), (<$e>::from($spec::SideLength(l)), 0.0)] { for i in 0..<$u as V>::D { check("a cube has its side length in place", close(x.min.c(i), at, s, 1e-15) && close(x.max.c(i), at + s, s, 1e-15), cube, || format!("{:?}..{:?}", x.min, x.max)) } is_center(&x, &cube) }
            let c = $m::of(lo);
            let x = VExtent::<$m>::cube_around_sphere(c, s);
            for i in 0..<$m as V>::D { check("cube around a sphere", close(x.min.c(i), lo[i] - s, s + lo[i].abs(), 1e-15) && close(x.max.c(i), lo[i] + s, s + lo[i].abs(), 1e-15) && x.center.c(i) == lo[i], || format!("{c:?} radius {s}"), || format!("{:?}..{:?}", x.min, x.max)) }
        }
    } }
    boxes!(two, Extent2d, Vec2Length, DVec2, 4, ExtentSpecification2d);
    boxes!(three, Extent3d, Vec3Length, DVec3, 8, ExtentSpecification3d);

    pub fn run() {
        quiet();
        let mut g = Rng::new(seed());
        for k in 0..if thorough() { 60_000 } else { 6_000 } {
            let n = if k < 8 { k as usize } else if k % 50 == 0 { g.below(300) as usize } else { g.below(12) as usize };
            points::<f64>(&mut g, n);
            points::<DVec2>(&mut g, n);
            points::<DVec3>(&mut g, n);
            points::<Vec2Length>(&mut g, n);
            points::<Vec3Length>(&mut g, n);
            two(&mut g);
            three(&mut g);
        }
        done();
    }
}
