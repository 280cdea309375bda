// Executable contract of directions and their rotation.
pub mod vx {
    use super::*;
    use vxcore::*;
    fn mag(m: &[[f64; 3]; 3]) -> String { format!("{m:?}") }
    fn is_rotation(clause: &str, m: &[[f64; 3]; 3], input: &dyn Fn() -> String) {
        for i in 0..3 { for j in 0..3 {
            let s: f64 = (0..3).map(|k| m[i][k] * m[j][k]).sum();
            check(clause, (s - (i == j) as i32 as f64).abs() < 1e-12, input, || format!("{}: rows {i} and {j} give {s}", mag(m)));
        } }
        let d = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
        check(clause, (d - 1.0).abs() < 1e-12, input, || format!("{}: determinant {d}", mag(m)));
    }

    pub fn run() {
        quiet();
        let n = if thorough() { 200_000 } else { 20_000 };
        let mut g = Rng_::new(seed());
        for k in 0..n {
            let (mut ax, angle) = (MVec::new(g.float(-1.0, 1.0), g.float(-1.0, 1.0), g.float(-1.0, 1.0)), *g.pick(&[0.0, 1.0, PI / 2.0, PI, 3.0, -2.0, 6.0]));
            if k % 7 == 0 { ax = [MVec::X, MVec::Y, MVec::Z, -MVec::X, -MVec::Y, -MVec::Z][g.below(6) as usize] }
            if ax.length() < 1e-3 { continue }
            let ax = ax.normalize();
            let angle = if g.bool() { angle } else { g.float(-10.0, 10.0) };
            let input = || format!("axis {ax:?} angle {angle:?}");
            case(true, input);
            let m = guarded("rotation: no panic", input, || get_rotation_matrix(ax, angle));
            is_rotation("a rotation keeps lengths, angles and orientation", &m, &input);
            let v = MVec::new(g.float(-5.0, 5.0), g.float(-5.0, 5.0), g.float(-5.0, 5.0));
            let mut w = v;
            multiply_by_matrix(&mut w, &m);
            let r = v * angle.cos() + ax.cross(v) * angle.sin() + ax * (ax.dot(v) * (1.0 - angle.cos()));
            check("a rotation turns by the angle about the axis", (w - r).length() < 1e-11, || format!("{} vector {v:?}", input()), || format!("{w:?} instead of {r:?}"));
        }
        for s in 0..n / 10 {
            let mut rng = StdRng::seed_from_u64(seed().wrapping_mul(7919).wrapping_add(s as u64));
            for _ in 0..3 { is_rotation("a random rotation keeps lengths, angles and orientation", &get_random_rotation_matrix(&mut rng), &|| format!("seed {s}")) }
        }
        // the predefined sets
        #[cfg(not(feature = "2d"))]
        for num in [1usize, 16, 21, 32, 64, 84] {
            let input = || format!("{num} directions");
            case(true, input);
            let d = guarded("direction set: no panic", input, || Directions::from_num(num));
            check("a direction set has the size asked for", d.len() == num && d.enumerate().count() == num, input, || format!("{}", d.len()));
            for (i, a) in d.enumerate() {
                check("directions are unit vectors", (a.0 .0.length() - 1.0).abs() < 2e-6, input, || format!("direction {i:?} = {:?}", a.0 .0));
                check("a direction is found by its index", d[i].0 .0 == a.0 .0, input, || format!("{i:?}"));
                for (j, b) in d.enumerate() { check("directions are all different", i.0 == j.0 || a.0 .0.dot(b.0 .0) < 0.99, input, || format!("{i:?} and {j:?}: {:?} {:?}", a.0 .0, b.0 .0)) }
            }
            let total: MVec = d.enumerate().map(|(_, a)| a.0 .0).sum();
            if num > 1 { check("directions have no net direction", total.length() < 0.02 * num as f64, input, || format!("{total:?}")) }
        }
        // redistribution
        for k in 0..n / 10 {
            let num = *g.pick(&[1usize, 2, 3, 5, 16, 84]);
            let unit = |g: &mut Rng_| loop { let v = MVec::new(g.float(-1.0, 1.0), g.float(-1.0, 1.0), g.float(-1.0, 1.0)); if v.length() > 0.1 { break Direction(v.normalize() * Dimensionless::dimensionless(1.0)) } };
            let old: Vec<Direction> = if num >= 16 { Directions::from_num(num).directions } else { (0..num).map(|_| unit(&mut g)).collect() };
            let mut rng = StdRng::seed_from_u64(k as u64);
            let m = get_random_rotation_matrix(&mut rng);
            let new: Vec<Direction> = old.iter().map(|d| { let mut v = d.0 .0; multiply_by_matrix(&mut v, &m); Direction(v * Dimensionless::dimensionless(1.0)) }).collect();
            type P = <HydrogenOnly as Chemistry>::Photons;
            let before: Vec<P> = (0..num).map(|_| P::photons_per_second(if g.below(4) == 0 { 0.0 } else { g.float(0.0, 1e50) })).collect();
            let mut after = before.clone();
            let input = || format!("{num} directions, rotation {}, rates {before:?}", mag(&m));
            case(num > 1, input);
            guarded("redistribution: no panic", input, || remap(&mut after, &old, &new));
            let sum = |v: &[P]| v.iter().map(|x| x.in_photons_per_second()).sum::<f64>();
            check("rotating the directions keeps the photons", (sum(&after) - sum(&before)).abs() <= 1e-12 * sum(&before), input, || format!("{:?}: {:e} instead of {:e}", after, sum(&after), sum(&before)));
            check("rotating the directions leaves no negative rate", after.iter().all(|x| x.in_photons_per_second() >= 0.0), input, || format!("{after:?}"));
            // every direction's photons end up in the new direction closest to it
            let mut want = vec![0.0; num];
            let mut tie = false;
            for i in 0..num {
                let mut dots: Vec<(f64, usize)> = (0..num).map(|j| (old[i].0 .0.dot(new[j].0 .0), j)).collect();
                dots.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
                if num > 1 && dots[0].0 - dots[1].0 < 1e-9 { tie = true }
                want[dots[0].1] += before[i].in_photons_per_second();
            }
            if !tie { for j in 0..num { check("photons go to the closest new direction", close(after[j].in_photons_per_second(), want[j], sum(&before), 1e-12), input, || format!("direction {j}: {:?} instead of {:e}", after[j], want[j])) } }
        }
        done();
    }
    use vxcore::Rng as Rng_;
}
