pub mod vx {
    use super::*;
    use crate::simulation_box::vx::*;
    use vxcore::*;

    /// A halo search finds the one image within its radius.
    pub fn run(g: &mut Rng) {
        let (a, b, bx) = some_box(g);
        let l: Vec<f64> = (0..D).map(|i| b[i] - a[i]).collect();
        let rmax = l.iter().cloned().fold(f64::INFINITY, f64::min) * 0.49;
        let p: Vec<f64> = (0..D).map(|i| a[i] + l[i] * g.unit()).collect();
        // a search point within the radius of some image
        let k: Vec<i64> = (0..D).map(|_| g.range(-1, 1)).collect();
        let radius = rmax * g.float(0.05, 1.0);
        let dir: Vec<f64> = (0..D).map(|_| g.float(-1.0, 1.0)).collect();
        let len = dir.iter().map(|x| x * x).sum::<f64>().sqrt();
        if len < 1e-3 { return }
        let far = radius * g.unit() * 0.99;
        let s: Vec<f64> = (0..D).map(|i| p[i] + k[i] as f64 * l[i] + dir[i] / len * far).collect();
        let input = || format!("box {a:?}..{b:?}, particle {p:?}, search around {s:?} with radius {radius}");
        case(k.iter().any(|x| *x != 0), input);
        let search = SearchData::<ActiveDimension> { point: vec(&s).value_unchecked(), radius };
        guarded("a halo search keeps the image within its radius", input, || {
            let (t, q) = find_wrapped_point(&bx, &search, vec(&p));
            check("a halo search keeps the image within its radius", wraps(&t) == k && (0..D).all(|i| close(q[i], p[i] + k[i] as f64 * l[i], scale(&a, &b), 1e-14)), input, || format!("{t:?} at {q:?}"));
        });
    }
}
