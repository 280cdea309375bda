// Contract of the rotation of directions, over the reals.
pub mod vx {
    use super::*;
    use symx::*;

    fn vector(n: &str) -> MVec { MVec::new(R::var(&format!("{n}x")), R::var(&format!("{n}y")), R::var(&format!("{n}z"))) }
    fn apply(m: &[[R; 3]; 3], v: MVec) -> MVec { let mut w = v; multiply_by_matrix(&mut w, m); w }
    fn orthogonal(name: &str, m: &[[R; 3]; 3]) {
        for i in 0..3 { for j in 0..3 {
            let mut s = R::int(0);
            for k in 0..3 { s = s + m[i][k] * m[j][k] }
            ensure_eq(&format!("{name}: rows are orthonormal"), s, R::int((i == j) as i64));
        } }
        let d = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
        ensure_eq(&format!("{name}: orientation is kept (determinant 1)"), d, R::int(1));
    }

    pub fn run() {
        explore("matrix times vector", 4, || {
            let m: [[R; 3]; 3] = std::array::from_fn(|i| std::array::from_fn(|j| R::var(&format!("m{i}{j}"))));
            let v = vector("v");
            let w = apply(&m, v).to_array();
            let a = v.to_array();
            for i in 0..3 { ensure_eq("multiply_by_matrix is the product", w[i], m[i][0] * a[0] + m[i][1] * a[1] + m[i][2] * a[2]) }
        });
        explore("rotation", 40, || {
            let (x, y, z) = (R::var("x"), R::var("y"), R::var("z"));
            assume_sq(z, R::int(1) - x * x - y * y);
            let axis = MVec::new(x, y, z);
            let angle = R::var("angle");
            let m = get_rotation_matrix(axis, angle);
            orthogonal("rotation", &m);
            // the axis stays, and a vector turns by the angle about it (Rodrigues)
            let k = apply(&m, axis);
            ensure_eq("rotation: the axis is fixed", k.x, x);
            ensure_eq("rotation: the axis is fixed", k.y, y);
            ensure_eq("rotation: the axis is fixed", k.z, z);
            let v = vector("v");
            let w = apply(&m, v);
            let r = v * angle.cos() + axis.cross(v) * angle.sin() + axis * (axis.dot(v) * (R::int(1) - angle.cos()));
            ensure_eq("rotation: turns by the angle about the axis", w.x, r.x);
            ensure_eq("rotation: turns by the angle about the axis", w.y, r.y);
            ensure_eq("rotation: turns by the angle about the axis", w.z, r.z);
            ensure_eq("rotation: lengths are kept", w.length_squared(), v.length_squared());
            let u = vector("u");
            ensure_eq("rotation: angles between vectors are kept", apply(&m, u).dot(w), u.dot(v));
        });
        explore("random rotation", 40, || {
            let m = get_random_rotation_matrix(&mut rand::rngs::StdRng);
            orthogonal("random rotation, every draw", &m);
        });
        // redistribution of photons for one, two and three directions in any positions
        fn conserve(n: usize) {
            let dirs = |t: &str| -> Vec<Direction> { (0..n).map(|i| Direction(vector(&format!("{t}{i}")) * Dimensionless::dimensionless(R::int(1)))).collect() };
            let (old, new) = (dirs("o"), dirs("n"));
            type P = <HydrogenOnly as Chemistry>::Photons;
            let before: Vec<P> = (0..n).map(|i| { let r = R::var(&format!("rate{i}")); assume(r >= R::int(0)); P::new_unchecked(r) }).collect();
            let mut after = before.clone();
            remap(&mut after, &old, &new);
            let sum = |v: &[P]| v.iter().fold(R::int(0), |a, b| a + b.value_unchecked());
            ensure_eq(&format!("redistribution over {n} directions: the total is unchanged"), sum(&after), sum(&before));
            for a in &after { ensure_le(&format!("redistribution over {n} directions: no rate becomes negative"), R::int(0), a.value_unchecked()) }
        }
        explore("redistribution 1", 10, || conserve(1));
        explore("redistribution 2", 200, || conserve(2));
        explore("redistribution 3", 5000, || conserve(3));
        report();
    }
}
