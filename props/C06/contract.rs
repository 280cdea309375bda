// Executable contract of the linear solvers: exact arithmetic for the general solver, residuals for floats,
// pivots for what the fast solver refuses.
pub mod vx {
    use super::*;
    use num::{BigRational, FromPrimitive as _, Zero as _};
    use vxcore::*;
    type Q = BigRational;
    fn q(x: f64) -> Q { Q::from_f64(x).unwrap() }
    fn det(m: &[Vec<Q>]) -> Q {
        if m.len() == 1 { return m[0][0].clone() }
        let mut s = Q::zero();
        for c in 0..m.len() {
            let minor: Vec<Vec<Q>> = m[1..].iter().map(|r| r.iter().enumerate().filter(|(k, _)| *k != c).map(|(_, x)| x.clone()).collect()).collect();
            let t = m[0][c].clone() * det(&minor);
            s = if c % 2 == 0 { s + t } else { s - t };
        }
        s
    }

    fn general<const M: usize>(g: &mut Rng) where [(); M + 1]: {
        let style = g.below(6);
        let mut m = [[0.0; M + 1]; M];
        for r in 0..M { for c in 0..=M {
            m[r][c] = match style { 0 => g.range(-1, 1) as f64, 1 => g.range(-3, 3) as f64, 2 => if g.below(3) > 0 { 0.0 } else { g.range(1, 9) as f64 }, 3 => g.float(-1.0, 1.0) * 10f64.powi(g.range(-6, 6) as i32), 4 => if g.bool() { g.float(-1.0, 1.0) * 1e-17 } else { g.range(-2, 2) as f64 }, _ => g.float(-1.0, 1.0) };
        } }
        let input = || format!("{M} equations {m:?}");
        let e: Vec<Vec<Q>> = m.iter().map(|r| r.iter().map(|x| q(*x)).collect()).collect();
        let d = det(&e.iter().map(|r| r[..M].to_vec()).collect::<Vec<_>>());
        if d.is_zero() { return }
        case(style < 3, input);
        let a: [[Q; M + 1]; M] = std::array::from_fn(|i| std::array::from_fn(|j| e[i][j].clone()));
        let x = guarded("general solver, exact: no panic", input, || solve_system_of_equations::<M, Q>(a));
        for i in 0..M {
            let mut s = Q::zero();
            for j in 0..M { s = s + e[i][j].clone() * x[j].clone() }
            check("general solver, exact: the result solves every equation", s == e[i][M], input, || format!("{x:?} in equation {i}"));
        }
        let y = guarded("general solver: no panic", input, || solve_system_of_equations::<M, f64>(m));
        residual("general solver: the result solves every equation up to rounding", &m, &y, &input);
    }
    fn residual<const M: usize, const N: usize>(clause: &str, m: &[[f64; N]; M], y: &[f64; M], input: &dyn Fn() -> String) {
        for i in 0..M {
            let mut s = q(m[i][M]);
            if y.iter().any(|v| !v.is_finite()) {
                // a matrix singular to working precision may overflow; regular ones of small integers may not
                check(clause, m.iter().flatten().any(|v| v.fract() != 0.0), input, || format!("{y:?}"));
                return;
            }
            for j in 0..M { s = s - q(m[i][j]) * q(y[j]) }
            use num::ToPrimitive;
            // elimination with pivoting is backward stable: the residual is small against |A| |x|
            let norm = m.iter().map(|r| (0..M).map(|j| r[j].abs()).fold(0.0, f64::max)).fold(0.0, f64::max) * y.iter().fold(0.0, |a, v| f64::max(a, v.abs())) + m.iter().map(|r| r[M].abs()).fold(0.0, f64::max);
            let res = s.to_f64().unwrap().abs();
            check(clause, res <= 1e-13 * norm, input, || format!("{y:?}: residual {res:e} in equation {i} at scale {norm:e}"));
        }
    }

    /// The pivots of elimination with row pivoting in the first two columns, exactly.
    fn pivots(m: &[[f64; 4]; 3]) -> Option<[f64; 3]> {
        use num::{Signed, ToPrimitive};
        let mut e: Vec<Vec<Q>> = m.iter().map(|r| r.iter().map(|x| q(*x)).collect()).collect();
        let mut p = [0.0; 3];
        for k in 0..3 {
            let mut b = k;
            for i in k + 1..3 { if e[i][k].abs() > e[b][k].abs() { b = i } }
            e.swap(k, b);
            p[k] = e[k][k].to_f64().unwrap().abs();
            if e[k][k].is_zero() { return Some(p).filter(|_| false) }
            for i in k + 1..3 { let f = e[i][k].clone() / e[k][k].clone(); for j in k..4 { e[i][j] = e[i][j].clone() - f.clone() * e[k][j].clone() } }
        }
        Some(p)
    }
    fn fast(g: &mut Rng) {
        let style = g.below(8);
        let mut m = [[0.0; 4]; 3];
        for r in 0..3 { for c in 0..4 {
            m[r][c] = match style { 0 => g.range(-1, 1) as f64, 1 => g.range(-4, 4) as f64, 2 => if g.bool() { 0.0 } else { g.range(1, 9) as f64 }, 3 => g.float(-1.0, 1.0) * 10f64.powi(g.range(-10, 2) as i32), _ => g.float(-1.0, 1.0) };
        } }
        if style >= 5 {
            // close to singular in one way or another
            let t = 10f64.powf(g.float(-11.0, -5.0));
            let (a, b) = (g.below(3) as usize, g.below(3) as usize);
            match style {
                5 => if a != b { for c in 0..4 { m[a][c] = m[b][c] + t * m[a][c] } },
                6 => { let c = g.below(3) as usize; for r in 0..3 { m[r][c] *= t } }
                _ => { let (c, d) = (a, b); if c != d { for r in 0..3 { m[r][c] = m[r][d] * 2.0 + t * m[r][c] } } }
            }
        }
        let input = || format!("3 equations {m:?}");
        case(style >= 5 || style < 3, input);
        let p = pivots(&m);
        let r = guarded("fast solver: no panic", input, || solve_3x4_system_of_equations_error(m));
        let smallest = p.map(|p| p.iter().cloned().fold(f64::INFINITY, f64::min)).unwrap_or(0.0);
        let scale = m.iter().flatten().fold(0.0, |a: f64, v| a.max(v.abs()));
        match r {
            Ok(x) => {
                check("fast solver: a system with a pivot below the threshold is refused", smallest >= GAUSS_3X4_EPSILON * (1.0 - 1e-6) - 1e-12 * scale, input, || format!("{x:?}, smallest pivot {smallest:e}"));
                check("fast solver: an answer is a number", x.iter().all(|v| v.is_finite()), input, || format!("{x:?}"));
                residual("fast solver: an answer solves every equation up to rounding", &m, &x, &input);
            }
            Err(_) => check("fast solver: only systems with a pivot below the threshold are refused", smallest <= 1e-8 * (1.0 + 1e-6) + 1e-12 * scale, input, || format!("refused, smallest pivot {smallest:e}")),
        }
    }

    pub fn run() {
        quiet();
        let n = if thorough() { 200_000 } else { 20_000 };
        let mut g = Rng::new(seed());
        check("the threshold of the fast solver", GAUSS_3X4_EPSILON > 0.0 && GAUSS_3X4_EPSILON <= 1e-6, || "GAUSS_3X4_EPSILON".into(), || format!("{GAUSS_3X4_EPSILON:e}"));
        for _ in 0..n {
            general::<2>(&mut g);
            general::<3>(&mut g);
            if g.below(4) == 0 { general::<4>(&mut g) }
            fast(&mut g);
        }
        done();
    }
}
