
/// Executable contract of the keys of positions in an extent.
pub mod vx {
    use super::*;
    use vxcore::*;

    pub fn run() {
        quiet();
        let mut g = Rng::new(seed());
        for _ in 0..(if thorough() { 200_000 } else { 10_000 }) {
            let s = *g.pick(&[1.0, 1e-3, 3e20]);
            let mut lo = [0.0; 3];
            let mut hi = [0.0; 3];
            let mut p = [0.0; 3];
            for i in 0..3 {
                lo[i] = g.float(-1.0, 1.0) * s;
                hi[i] = lo[i] + g.float(0.1, 2.0) * s;
                p[i] = match g.below(8) { 0 => lo[i], 1 => hi[i], _ => lo[i] + (hi[i] - lo[i]) * g.unit() };
            }
            let input = || format!("the point {p:?} in the extent from {lo:?} to {hi:?}");
            case(true, input);
            let v2 = |x: [f64; 3]| MVec2::new(x[0], x[1]);
            let v3 = |x: [f64; 3]| MVec3::new(x[0], x[1], x[2]);
            let w2 = PeanoKey2d::from_point_and_min_max(v2(p), v2(lo), v2(hi));
            let w3 = PeanoKey3d::from_point_and_min_max(v3(p), v3(lo), v3(hi));
            let what = "the key of a position in an extent is the key of the grid position it has between the lower and the upper corner";
            let k = guarded("the key of a position: no panic", input, || v2(p).into_key(&Extent::from_min_max(v2(lo), v2(hi))));
            check(what, k == w2, input, || format!("2D: {k:?} instead of {w2:?}"));
            let k = guarded("the key of a position: no panic", input, || v3(p).into_key(&Extent::from_min_max(v3(lo), v3(hi))));
            check(what, k == w3, input, || format!("3D: {k:?} instead of {w3:?}"));
            let l2 = |x| Vec2Length::new_unchecked(v2(x));
            let l3 = |x| Vec3Length::new_unchecked(v3(x));
            let k = guarded("the key of a position: no panic", input, || l2(p).into_key(&Extent { min: l2(lo), max: l2(hi), center: l2(lo) }));
            check(what, k == w2, input, || format!("2D lengths: {k:?} instead of {w2:?}"));
            let k = guarded("the key of a position: no panic", input, || l3(p).into_key(&Extent { min: l3(lo), max: l3(hi), center: l3(lo) }));
            check(what, k == w3, input, || format!("3D lengths: {k:?} instead of {w3:?}"));
        }
        done()
    }
}
