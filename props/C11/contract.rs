// Executable contract of periodic wrapping and distances.
pub mod vx {
    use super::*;
    use vxcore::*;

    #[cfg(feature = "3d")]
    pub const D: usize = 3;
    #[cfg(feature = "2d")]
    pub const D: usize = 2;
    #[cfg(feature = "3d")]
    pub fn vec(x: &[f64]) -> VecLength { VecLength::new_unchecked(glam::DVec3::new(x[0], x[1], x[2])) }
    #[cfg(feature = "2d")]
    pub fn vec(x: &[f64]) -> VecLength { VecLength::new_unchecked(glam::DVec2::new(x[0], x[1])) }
    #[cfg(feature = "3d")]
    pub fn wraps(t: &PeriodicWrapType3d) -> Vec<i64> { [t.x, t.y, t.z].iter().map(num).collect() }
    #[cfg(feature = "2d")]
    pub fn wraps(t: &PeriodicWrapType2d) -> Vec<i64> { [t.x, t.y].iter().map(num).collect() }
    #[cfg(feature = "3d")]
    fn no_wrap() -> PeriodicWrapType3d { PeriodicWrapType3d::no_wrap() }
    #[cfg(feature = "2d")]
    fn no_wrap() -> PeriodicWrapType2d { PeriodicWrapType2d::no_wrap() }
    fn num(w: &WrapType) -> i64 { match w { WrapType::NoWrap => 0, WrapType::Minus => -1, WrapType::Plus => 1 } }
    fn c(v: &VecLength, i: usize) -> f64 { v.value_unchecked()[i] }
    pub fn scale(a: &[f64], b: &[f64]) -> f64 { a.iter().chain(b).fold(0.0f64, |m, x| m.max(x.abs())) * 4.0 }

    pub fn some_box(g: &mut Rng) -> (Vec<f64>, Vec<f64>, SimulationBox) {
        let kind = g.below(5);
        let size = if g.bool() { 1.0 } else { 10f64.powi(g.range(-12, 12) as i32) };
        let side = g.float(0.5, 4.0);
        let mut a = vec![]; let mut b = vec![];
        for _ in 0..D {
            let (lo, l) = match kind { 0 => (0.0, side), 1 => (-side / 2.0, side), 2 => (0.0, g.float(0.5, 4.0)), 3 => (g.float(-3.0, 3.0), g.float(0.5, 4.0)), _ => (g.range(-3, 3) as f64, g.range(1, 4) as f64) };
            a.push(lo * size); b.push((lo + l) * size);
        }
        let bx = if kind == 0 { SimulationBox::cube_from_side_length(Length::new_unchecked(side * size)) } else if kind == 1 && size == 1.0 { SimulationBox::cube_from_side_length_centered(Length::new_unchecked(side)) } else { SimulationBox::new(Extent::from_min_max(vec(&a), vec(&b))) };
        for i in 0..D { check("a box has the corners asked for", close(c(&bx.min, i), a[i], size * 8.0, 1e-15) && close(c(&bx.max, i), b[i], size * 8.0, 1e-15), || format!("box {a:?}..{b:?}"), || format!("{:?}..{:?}", bx.min, bx.max)); }
        (a, b, bx)
    }

    pub fn run() {
        quiet();
        let mut g = Rng::new(seed());
        for _ in 0..if thorough() { 40000 } else { 4000 } {
            let (a, b, bx) = some_box(&mut g);
            let l: Vec<f64> = (0..D).map(|i| b[i] - a[i]).collect();
            let sc = scale(&a, &b);
            // wrapping
            let inside: Vec<f64> = (0..D).map(|i| match g.below(5) { 0 => a[i], 1 => a[i] + l[i] / 2.0, _ => a[i] + l[i] * g.unit() * 0.999 }).collect();
            let k: Vec<i64> = (0..D).map(|_| if g.bool() { g.range(-2, 2) } else { g.range(-1000, 1000) }).collect();
            let out: Vec<f64> = (0..D).map(|i| inside[i] + k[i] as f64 * l[i]).collect();
            let tol = |i: usize| sc * 4e-16 * (4.0 + k[i].abs() as f64 * 4.0);
            for (p, moved) in [(&inside, false), (&out, true)] {
                let input = || format!("box {a:?}..{b:?}, point {p:?}");
                case(moved, input);
                guarded("wrapping gives an answer", input, || {
                    let r = bx.periodic_wrap(vec(p));
                    for i in 0..D {
                        let (x, t) = (c(&r, i), if moved { tol(i) } else { sc * 4e-16 });
                        check("a wrapped point is inside the box", x >= a[i] - sc * 4e-16 && x <= b[i] + sc * 4e-16, input, || format!("{r:?}"));
                        // the image of the border may come out at either end
                        let d = (x - inside[i]).abs();
                        check(if moved { "wrapping moves by whole box lengths" } else { "points inside are untouched" }, d <= t || (moved && (d - l[i]).abs() <= t), input, || format!("{r:?}, which is not an image within the box"));
                    }
                });
            }
            // distances
            let p: Vec<f64> = (0..D).map(|i| a[i] + l[i] * g.float(-0.25, 1.25)).collect();
            let q: Vec<f64> = (0..D).map(|i| match g.below(4) { 0 => p[i] + l[i] / 2.0, 1 => p[i] - l[i] / 2.0, _ => p[i] + l[i] * g.float(-1.49, 1.49) }).collect();
            let input = || format!("box {a:?}..{b:?}, points {p:?} and {q:?}");
            case((0..D).any(|i| (p[i] - q[i]).abs() > l[i] / 2.0), input);
            let smallest = |p: &[f64], q: &[f64]| (0..D).map(|i| (-3..=3).map(|k| (p[i] - q[i] + k as f64 * l[i]).abs()).fold(f64::INFINITY, f64::min)).collect::<Vec<f64>>();
            guarded("a periodic distance is computed", input, || {
                let v = bx.periodic_distance_vec(&vec(&p), &vec(&q));
                let d = bx.periodic_distance(&vec(&p), &vec(&q)).value_unchecked();
                let w = smallest(&p, &q);
                for i in 0..D {
                    check("each component is the smallest over all images", close(c(&v, i).abs(), w[i], sc, 1e-15 * 4.0), input, || format!("{v:?}, expected components of size {w:?}"));
                    let m = (c(&v, i) - (p[i] - q[i])) / l[i];
                    check("the difference is moved by whole box lengths", (m - m.round()).abs() * l[i] <= sc * 4e-15, input, || format!("{v:?}"));
                }
                let len = w.iter().map(|x| x * x).sum::<f64>().sqrt();
                check("the periodic distance is the smallest distance over all images", close(d, len, sc, 1e-14), input, || format!("{d}, expected {len}"));
                let e = bx.periodic_distance(&vec(&q), &vec(&p)).value_unchecked();
                check("the periodic distance is symmetric", close(d, e, sc, 1e-14), input, || format!("{d} and {e}"));
            });
            // images
            let x: Vec<f64> = (0..D).map(|i| a[i] + l[i] * g.unit()).collect();
            let input = || format!("box {a:?}..{b:?}, images of {x:?}");
            case(true, input);
            guarded("images are listed", input, || {
                let all: Vec<_> = bx.iter_periodic_images(vec(&x)).collect();
                let n = 3usize.pow(D as u32);
                check("there is one image for every combination of moves", all.len() == n, input, || format!("{} images", all.len()));
                for k in 0..n {
                    let want: Vec<i64> = (0..D).map(|i| (k / 3usize.pow(i as u32) % 3) as i64 - 1).collect();
                    check("every combination of moves occurs once", all.iter().filter(|(t, _)| wraps(t) == want).count() == 1, input, || format!("{:?}", all.iter().map(|(t, _)| *t).collect::<Vec<_>>()));
                }
                for (t, y) in &all {
                    let w = wraps(t);
                    check("an image is moved as its label says", (0..D).all(|i| close(c(y, i), x[i] + w[i] as f64 * l[i], sc, 2e-15)), input, || format!("{t:?} at {y:?}"));
                    check("exactly the unmoved image is not periodic", t.is_periodic() == w.iter().any(|v| *v != 0), input, || format!("{t:?}"));
                }
                check("no wrap is no move", wraps(&no_wrap()).iter().all(|w| *w == 0) && !no_wrap().is_periodic(), input, || format!("{:?}", no_wrap()));
            });
            crate::voronoi::constructor::parallel::vx::run(&mut g);
            // a comoving box length
            let (s, sf, h) = (g.float(0.1, 100.0), g.float(0.01, 1.0), g.float(0.5, 0.9));
            let cosmo = Cosmology::Cosmological { a: sf, h, params: None };
            let input = || format!("box of {s} comoving length times h at scale factor {sf}, h = {h}");
            case(true, input);
            guarded("a box is computed", input, || {
                let bx = get_simulation_box(&SimulationBoxParameters::Comoving(ComovingLengthTimesH::new_unchecked(s)), &cosmo);
                for i in 0..D { check("a comoving box length is converted to a physical one", c(&bx.min, i) == 0.0 && close(c(&bx.max, i), s * sf / h, s, 1e-14), input, || format!("{:?}..{:?}", bx.min, bx.max)) }
            });
        }
        done();
    }
}
