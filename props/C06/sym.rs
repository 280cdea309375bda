// Contract of the linear solvers over the reals.
pub mod vx {
    use super::*;
    use symx::*;

    fn system<const M: usize, const N: usize>(zeros: &[(usize, usize)]) -> [[R; N]; M] {
        std::array::from_fn(|i| std::array::from_fn(|j| if zeros.contains(&(i, j)) { R::int(0) } else { R::var(&format!("a{i}{j}")) }))
    }
    fn det(m: &[Vec<R>]) -> R {
        if m.len() == 1 { return m[0][0] }
        let mut s = R::int(0);
        for c in 0..m.len() {
            let minor: Vec<Vec<R>> = m[1..].iter().map(|r| r.iter().enumerate().filter(|(k, _)| *k != c).map(|(_, x)| *x).collect()).collect();
            let t = m[0][c] * det(&minor);
            s = if c % 2 == 0 { s + t } else { s - t };
        }
        s
    }
    fn square<const M: usize, const N: usize>(m: &[[R; N]; M]) -> R { det(&m.iter().map(|r| r[..M].to_vec()).collect::<Vec<_>>()) }

    fn general<const M: usize>(zeros: &[(usize, usize)]) where [(); M + 1]: {
        let m: [[R; M + 1]; M] = system(zeros);
        assume(square(&m) != R::int(0));
        let x = solve_system_of_equations::<M, R>(m);
        for i in 0..M {
            if !x[i].is_finite() { ensure(&format!("solve_system_of_equations {M}: a regular system has a finite solution"), false); return }
        }
        for i in 0..M {
            let mut s = R::int(0);
            for j in 0..M { s = s + m[i][j] * x[j] }
            ensure_eq(&format!("solve_system_of_equations {M}: the result solves every equation of a regular system"), s, m[i][M]);
        }
    }

    pub fn run() {
        let deep = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        z3_timeout_ms(if deep { 4000 } else { 1000 });
        abs_as_variable(true);
        explore("solve 1", 50, || general::<1>(&[]));
        explore("solve 2", 500, || general::<2>(&[]));
        explore("solve 3", 20000, || general::<3>(&[]));
        // every zero pattern that keeps the matrix regular comes up as a path of its own above; the fast solver:
        explore("solve 3x4", 20000, || {
            let m: [[R; 4]; 3] = system(&[]);
            match solve_3x4_system_of_equations_error(m) {
                Err(_) => {}
                Ok(x) => for i in 0..3 {
                    let s = m[i][0] * x[0] + m[i][1] * x[1] + m[i][2] * x[2];
                    ensure_eq("solve_3x4_system_of_equations_error: an answer solves every equation", s, m[i][3]);
                },
            }
        });
        explore("rows", 10, || {
            let m: [[R; 4]; 3] = system(&[]);
            for a in 0..3 { for b in 0..3 {
                let mut w = m;
                swap_rows(&mut w, a, b);
                for i in 0..3 { for j in 0..4 {
                    let want = if i == a { m[b][j] } else if i == b { m[a][j] } else { m[i][j] };
                    ensure_eq("swap_rows exchanges the two rows and nothing else", w[i][j], want);
                } }
                let f = R::var("f");
                if a != b {
                    let mut w = m;
                    add_row_to_another(&mut w, a, b, f);
                    for i in 0..3 { for j in 0..4 {
                        let want = if i == a { m[a][j] + f * m[b][j] } else { m[i][j] };
                        ensure_eq("add_row_to_another adds the multiple to the one row", w[i][j], want);
                    } }
                }
            } }
        });
        report();
    }
}
