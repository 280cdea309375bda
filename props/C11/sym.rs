// Contract of periodic wrapping and distances, over the reals.
pub mod vx {
    use super::*;
    use symx::*;

    #[cfg(feature = "3d")]
    const D: usize = 3;
    #[cfg(feature = "2d")]
    const D: usize = 2;
    #[cfg(feature = "3d")]
    type Raw = glam::DVec3;
    #[cfg(feature = "2d")]
    type Raw = glam::DVec2;

    #[cfg(feature = "3d")]
    fn vec(x: &[R]) -> VecLength { VecLength::new_unchecked(Raw::new(x[0], x[1], x[2])) }
    #[cfg(feature = "2d")]
    fn vec(x: &[R]) -> VecLength { VecLength::new_unchecked(Raw::new(x[0], x[1])) }
    #[cfg(feature = "3d")]
    fn wraps(t: &PeriodicWrapType3d) -> Vec<i64> { [t.x, t.y, t.z].iter().map(num).collect() }
    #[cfg(feature = "2d")]
    fn wraps(t: &PeriodicWrapType2d) -> Vec<i64> { [t.x, t.y].iter().map(num).collect() }
    #[cfg(feature = "3d")]
    fn no_wrap() -> PeriodicWrapType3d { PeriodicWrapType3d::no_wrap() }
    #[cfg(feature = "2d")]
    fn no_wrap() -> PeriodicWrapType2d { PeriodicWrapType2d::no_wrap() }
    fn num(w: &WrapType) -> i64 { match w { WrapType::NoWrap => 0, WrapType::Minus => -1, WrapType::Plus => 1 } }
    fn c(v: &VecLength, i: usize) -> R { v.value_unchecked().to_array()[i] }
    fn vars(n: &str) -> Vec<R> { (0..D).map(|i| R::var(&format!("{n}{i}"))).collect() }
    fn box_(a: &[R], b: &[R]) -> SimulationBox { for i in 0..D { assume(a[i] < b[i]) } SimulationBox::new(Extent::from_min_max(vec(a), vec(b))) }

    pub fn run() {
        // the coordinates do not influence each other: each one is taken free with the others fixed, then all together
        for i in 0..D {
            explore("wrap", 1000, || {
                let (mut a, mut b, mut p) = (vec![R::int(-1); D], vec![R::int(2); D], vec![R::int(7); D]);
                a[i] = R::var("min"); b[i] = R::var("max"); p[i] = R::var("p");
                let r = box_(&a, &b).periodic_wrap(vec(&p));
                let l = b[i] - a[i];
                ensure_le("a wrapped point is inside the box", a[i], c(&r, i));
                ensure_lt("a wrapped point is inside the box", c(&r, i), b[i]);
                ensure_multiple("wrapping moves by whole box lengths", p[i] - c(&r, i), l);
                if a[i] <= p[i] && p[i] < b[i] { ensure_eq("points inside are untouched", c(&r, i), p[i]) }
                for j in 0..D { if j != i { ensure_eq("each coordinate is wrapped by its own length", c(&r, j), R::int(1)) } }
            });
        }
        explore("wrap all", 1000, || {
            let (a, b, p) = (vars("min"), vars("max"), vars("p"));
            let r = box_(&a, &b).periodic_wrap(vec(&p));
            for i in 0..D {
                ensure_le("a wrapped point is inside the box (all coordinates)", a[i], c(&r, i));
                ensure_lt("a wrapped point is inside the box (all coordinates)", c(&r, i), b[i]);
            }
        });
        explore("distance", 4000, || {
            let (a, b, p, q) = (vars("min"), vars("max"), vars("p"), vars("q"));
            let bx = box_(&a, &b);
            for i in 0..D { let l = b[i] - a[i]; assume(p[i] - q[i] <= R::q(3, 2) * l); assume(p[i] - q[i] >= -R::q(3, 2) * l) }
            let r = bx.periodic_distance_vec(&vec(&p), &vec(&q));
            for i in 0..D {
                let l = b[i] - a[i];
                ensure_le("each component is at most half a box length (so the distance is the smallest over all images)", c(&r, i) * R::int(2), l);
                ensure_le("each component is at most half a box length (so the distance is the smallest over all images)", -l, c(&r, i) * R::int(2));
                let m = c(&r, i) - (p[i] - q[i]);
                ensure("the difference is moved by whole box lengths", m.identical(R::int(0)) || m.identical(l) || m.identical(-l) || m == R::int(0) || m == l || m == -l);
            }
        });
        for i in 0..D {
            explore("distance symmetric", 4000, || {
                let (a, b) = (vars("min"), vars("max"));
                let bx = box_(&a, &b);
                let (mut p, mut q) = (a.clone(), a.clone());
                p[i] = R::var("p"); q[i] = R::var("q");
                let l = b[i] - a[i];
                assume(p[i] - q[i] <= R::q(3, 2) * l); assume(p[i] - q[i] >= -R::q(3, 2) * l);
                let (x, y) = (c(&bx.periodic_distance_vec(&vec(&p), &vec(&q)), i), c(&bx.periodic_distance_vec(&vec(&q), &vec(&p)), i));
                ensure("the distance is symmetric", x.identical(y) || x.identical(-y) || x == y || x == -y);
                // another image of p, still in range
                for k in [-1, 1] {
                    let mut s = p.clone();
                    s[i] = p[i] + l * R::int(k);
                    if s[i] - q[i] <= R::q(3, 2) * l && s[i] - q[i] >= -R::q(3, 2) * l {
                        let z = c(&bx.periodic_distance_vec(&vec(&s), &vec(&q)), i);
                        ensure("the distance does not depend on the image", x.identical(z) || x.identical(-z) || x == z || x == -z);
                    }
                }
            });
        }
        explore("distance length", 4000, || {
            let (p, q) = (vars("p"), vars("q"));
            let bx = box_(&vec![R::int(0); D], &[R::int(1), R::int(2), R::int(3)][..D]);
            for i in 0..D { assume(p[i] - q[i] <= R::int(1)); assume(p[i] - q[i] >= R::int(-1)) }
            let (v, d) = (bx.periodic_distance_vec(&vec(&p), &vec(&q)), bx.periodic_distance(&vec(&p), &vec(&q)).value_unchecked());
            let mut s = R::int(0);
            for i in 0..D { s = s + c(&v, i) * c(&v, i) }
            ensure_eq("the distance is the length of the distance vector", d * d, s);
            ensure_le("the distance is not negative", R::int(0), d);
        });
        explore("images", 4000, || {
            let (a, b, p) = (vars("min"), vars("max"), vars("p"));
            let bx = box_(&a, &b);
            let all: Vec<_> = bx.iter_periodic_images(vec(&p)).collect();
            let n = 3usize.pow(D as u32);
            ensure("there is one image for every combination of moves", all.len() == n);
            for k in 0..n {
                let want: Vec<i64> = (0..D).map(|i| (k / 3usize.pow(i as u32) % 3) as i64 - 1).collect();
                let hits: Vec<_> = all.iter().filter(|(t, _)| wraps(t) == want).collect();
                ensure("every combination of moves occurs once", hits.len() == 1);
                for (t, x) in hits {
                    for i in 0..D { ensure_eq("an image is moved as its label says", c(x, i), p[i] + (b[i] - a[i]) * R::int(want[i])) }
                    ensure("exactly the unmoved image is not periodic", t.is_periodic() == want.iter().any(|w| *w != 0));
                }
            }
            ensure("no wrap is no move", wraps(&no_wrap()).iter().all(|w| *w == 0) && !no_wrap().is_periodic() && no_wrap() == Default::default());
        });
        explore("given lengths", 100, || {
            let s = R::var("s");
            let l = Length::new_unchecked(s);
            let cosmo = Cosmology::Cosmological { a: R::var("a"), h: R::var("h"), params: None };
            for (bx, lo) in [(SimulationBox::cube_from_side_length(l), R::int(0)), (SimulationBox::cube_from_side_length_centered(l), -s / R::int(2)), (get_simulation_box(&SimulationBoxParameters::Normal(l), &cosmo), R::int(0))] {
                for i in 0..D { ensure_eq("a box of the given length", c(&bx.min, i), lo); ensure_eq("a box of the given length", c(&bx.side_lengths(), i), s) }
            }
        });
        report();
    }
}
