// Executable contract of the signs of determinants: against exact rational arithmetic.
pub mod vx {
    use super::*;
    use num::{BigInt, BigRational, Zero as _, ToPrimitive as _};
    use vxcore::*;

    /// A finite double as an integer times 2^-1074 would be huge; entries are scaled to a common power instead.
    fn exact<const D: usize>(m: &[[f64; D]; D]) -> (i32, f64, f64) {
        // every entry as n * 2^e with a common e
        let dec = |x: f64| -> (i64, i32) { if x == 0.0 { return (0, i32::MAX) } let b = x.to_bits(); let s = if b >> 63 == 1 { -1 } else { 1 }; let e = ((b >> 52) & 0x7ff) as i32; let f = (b & ((1 << 52) - 1)) as i64; if e == 0 { (s * f, -1074) } else { (s * (f | 1 << 52), e - 1075) } };
        let mut e0 = i32::MAX;
        for r in m { for x in r { e0 = e0.min(dec(*x).1) } }
        if e0 == i32::MAX { return (0, 0.0, 0.0) }
        let k: Vec<Vec<BigInt>> = m.iter().map(|r| r.iter().map(|x| { let (n, e) = dec(*x); if n == 0 { BigInt::zero() } else { BigInt::from(n) << ((e - e0) as usize) } }).collect()).collect();
        fn go(k: &Vec<Vec<BigInt>>, row: usize, used: &mut Vec<usize>, acc: BigInt, det: &mut BigInt, perm: &mut BigInt) {
            use num::Signed;
            if row == k.len() { *perm += acc.abs(); *det += acc; return }
            for c in 0..k.len() {
                if used.contains(&c) || k[row][c].is_zero() { continue }
                let odd = used.iter().filter(|u| **u > c).count() % 2 == 1;
                used.push(c);
                let t = &acc * &k[row][c];
                go(k, row + 1, used, if odd { -t } else { t }, det, perm);
                used.pop();
            }
        }
        let (mut det, mut perm) = (BigInt::zero(), BigInt::zero());
        go(&k, 0, &mut vec![], BigInt::from(1), &mut det, &mut perm);
        let s = if det.is_zero() { 0 } else if det > BigInt::zero() { 1 } else { -1 };
        if perm.is_zero() { return (s, 0.0, 0.0) }
        let rel = BigRational::new(det.clone(), perm.clone()).to_f64().unwrap();
        // value as a double, with its scale
        let sc = |v: &BigInt| { let bits = v.bits() as i64; let sh = (bits - 60).max(0); let m = (v >> (sh as usize)).to_f64().unwrap(); m * 2f64.powi(((sh + D as i64 * e0 as i64).clamp(-1070, 1020)) as i32) };
        (s, rel, sc(&det))
    }
    fn num_sign(s: Sign) -> i32 { match s { Sign::Positive => 1, Sign::Negative => -1, Sign::Zero => 0 } }

    fn one<const D: usize>(m: [[f64; D]; D], f: fn([[f64; D]; D]) -> f64, g: fn([[f64; D]; D]) -> OperationResult<Sign>, h: fn([[f64; D]; D]) -> Sign, p: fn([[PrecisionFloat; D]; D]) -> PrecisionFloat) {
        let input = || format!("{D}x{D} matrix {m:?}");
        let (want, rel, _) = exact(&m);
        case(rel.abs() < 1e-9, input);
        let val = f(m);
        let u = 1.1102230246251565e-16;
        // the determinant over the exact numbers has the exact sign
        let e = guarded("exact determinant: no panic", input, || p(lift_matrix(m)));
        let es = if e.is_zero() { 0 } else if e > PrecisionFloat::zero() { 1 } else { -1 };
        check("the determinant over exact numbers is exact", es == want, input, || format!("sign {es} instead of {want}"));
        if rel.abs() > 64.0 * u {
            let fs = if val > 0.0 { 1 } else if val < 0.0 { -1 } else { 0 };
            check("the float determinant is within its rounding error", fs == want, input, || format!("{val:e} instead of sign {want}"));
        }
        let r = guarded("sign: no panic", input, || num_sign(h(m)));
        if r != want {
            let trusted = m.iter().flatten().all(|x| (val / x).abs() >= 0.999999e-15 || (val / x).is_nan());
            if trusted && rel.abs() <= 64.0 * u {
                // the filter compares the float result with the entries only
                known("filter-trusts-rounding-error", &input());
            } else {
                violated("the reported sign is the sign of the exact determinant", &input(), &format!("{r} instead of {want}"));
            }
        }
        if let OperationResult::ArbitraryPrecision(s) = g(m) { check("an answer from exact arithmetic is exact", num_sign(s) == want, input, || format!("{s:?} instead of {want}")) }
    }

    fn matrix<const D: usize>(g: &mut Rng) -> [[f64; D]; D] {
        let kind = g.below(12);
        let scale = [1.0, 1.0, 1.0, 1e-3, 1e3, 1e-8, 1e8, 1e20, 1e-20][g.below(9) as usize];
        let mut m = [[0.0; D]; D];
        // small integers hit exactly singular matrices and every zero pattern
        for r in 0..D { for c in 0..D {
            m[r][c] = match kind {
                0 | 1 => g.range(-2, 2) as f64,
                2 => g.range(-9, 9) as f64,
                3 | 4 => g.float(1.0, 2.0),
                5 => g.float(-1.0, 1.0) * 10f64.powi(g.range(-12, 12) as i32),
                _ => g.float(-1.0, 1.0),
            } * if kind < 3 { 1.0 } else { scale };
            if kind == 6 && g.below(3) == 0 { m[r][c] = 0.0 }
        } }
        if kind == 3 { for r in 0..D { m[r][0] = 1.0; if D >= 3 { m[r][D - 1] = (1..D - 1).map(|c| m[r][c] * m[r][c]).sum() } } }
        if kind >= 7 {
            // nearly or exactly dependent rows (or columns)
            let (a, b) = (g.below(D as u64) as usize, g.below(D as u64) as usize);
            let c = g.below(D as u64) as usize;
            if a != b {
                let (x, y) = (*g.pick(&[1.0, 2.0, -1.0, 0.5, 1.0 / 3.0]), *g.pick(&[0.0, 1.0, -2.0]));
                for k in 0..D { m[a][k] = x * m[b][k] + if c != a { y * m[c][k] } else { 0.0 } }
                if g.bool() { let k = g.below(D as u64) as usize; let bump = [1.0, -1.0, 5.0][g.below(3) as usize] * f64::EPSILON; m[a][k] *= 1.0 + bump }
            }
            if g.bool() { let t = m; for i in 0..D { for j in 0..D { m[i][j] = t[j][i] } } }
        }
        m
    }

    pub fn run() {
        quiet();
        let all = [Sign::Positive, Sign::Negative, Sign::Zero];
        for a in all { for b in all {
            let input = || format!("{a:?} * {b:?}");
            case(true, input);
            check("the sign of a product is the product of the signs", num_sign(a * b) == num_sign(a) * num_sign(b), input, || format!("{:?}", a * b));
        } }
        for v in [0.0, -0.0, 1.0, -1.0, 5e-324, -5e-324, 1e-300, -1e-300, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, 2.5e-16, -2.5e-16] {
            let input = || format!("sign of {v:e}");
            case(true, input);
            let want = if v > 0.0 { 1 } else if v < 0.0 { -1 } else { 0 };
            check("the sign of a number", num_sign(Sign::of(v)) == want && Sign::of(v).is_positive() == (want == 1) && Sign::of(v).is_negative() == (want == -1), input, || format!("{:?}", Sign::of(v)));
            if let Ok(s) = Sign::try_from_val(&v, 1e-10) { check("a sign that is not refused is right, and numbers below epsilon are refused", num_sign(s) == want && v.abs() >= 0.999999e-10, input, || format!("{s:?}")) }
        }
        one::<3>([[-6.677675641790235e19, 8.159178452972562e19, -7.858235775596003e19], [-1.335535128358047e20, 1.6318356905945124e20, -1.5716471551192007e20], [5.864951154774543e19, 2.172044142717742e19, -6.0433811509158855e19]], determinant3x3::<f64>, determinant3x3_sign_result, determinant3x3_sign, determinant3x3::<PrecisionFloat>);
        let n = if thorough() { 120_000 } else { 12_000 };
        let mut g = Rng::new(seed());
        for _ in 0..n {
            one::<3>(matrix(&mut g), determinant3x3::<f64>, determinant3x3_sign_result, determinant3x3_sign, determinant3x3::<PrecisionFloat>);
            one::<4>(matrix(&mut g), determinant4x4::<f64>, determinant4x4_sign_result, determinant4x4_sign, determinant4x4::<PrecisionFloat>);
            if g.below(3) == 0 { one::<5>(matrix(&mut g), determinant5x5::<f64>, determinant5x5_sign_result, determinant5x5_sign, determinant5x5::<PrecisionFloat>) }
        }
        // matrices whose float result is just below and just above what the filter accepts
        for _ in 0..n / 4 {
            let mut m = matrix::<3>(&mut g);
            let v = determinant3x3::<f64>(m);
            let s = 10f64.powf(g.float(-17.0, -13.0)) / v.abs().max(1e-30);
            if s.is_finite() && s < 1e40 && s > 1e-40 { for k in 0..3 { m[0][k] *= s } one::<3>(m, determinant3x3::<f64>, determinant3x3_sign_result, determinant3x3_sign, determinant3x3::<PrecisionFloat>) }
        }
        done();
    }
}
