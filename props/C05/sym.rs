// Contract of the determinants and of their signs, over the reals (generated code runs on symx::R).
pub mod vx {
    use super::*;
    use symx::*;

    /// Leibniz: the sum over all permutations, the definition of the determinant.
    fn leibniz<const D: usize>(m: &[[R; D]; D]) -> R {
        fn go<const D: usize>(m: &[[R; D]; D], row: usize, used: &mut Vec<usize>, acc: R, out: &mut R) {
            if row == D { *out = *out + acc; return }
            for c in 0..D {
                if used.contains(&c) { continue }
                let inv = used.iter().filter(|u| **u > c).count();
                used.push(c);
                let f = if inv % 2 == 1 { -m[row][c] } else { m[row][c] };
                go(m, row + 1, used, acc * f, out);
                used.pop();
            }
        }
        let mut s = R::int(0);
        go(m, 0, &mut vec![], R::int(1), &mut s);
        s
    }
    fn vars<const D: usize>() -> [[R; D]; D] { std::array::from_fn(|i| std::array::from_fn(|j| R::var(&format!("a{i}{j}")))) }

    // --- rounding: how often a product passes through a rounding, for every product of the expansion
    #[derive(Clone, Debug, PartialEq)]
    pub struct E(Vec<(bool, Vec<u8>, u32)>);
    impl E {
        fn var(i: u8) -> E { E(vec![(true, vec![i], 0)]) }
        fn join(self, o: E, minus: bool) -> E {
            let mut v = self.0;
            let had = !v.is_empty() && !o.0.is_empty();
            v.extend(o.0.into_iter().map(|(s, m, d)| (s != minus, m, d)));
            if had { for t in &mut v { t.2 += 1 } }
            E(v)
        }
        fn times(self, o: E) -> E {
            let mut v = vec![];
            for (s, m, d) in &self.0 { for (t, n, e) in &o.0 {
                let mut k = m.clone(); k.extend(n); k.sort();
                let exact = m.is_empty() || n.is_empty();
                v.push((s == t, k, d + e + if exact { 0 } else { 1 }))
            } }
            E(v)
        }
    }
    use std::ops::*;
    impl Add for E { type Output = E; fn add(self, o: E) -> E { self.join(o, false) } }
    impl Sub for E { type Output = E; fn sub(self, o: E) -> E { self.join(o, true) } }
    impl Mul for E { type Output = E; fn mul(self, o: E) -> E { self.times(o) } }
    impl Div for E { type Output = E; fn div(self, _: E) -> E { panic!("a division in a determinant") } }
    impl Rem for E { type Output = E; fn rem(self, _: E) -> E { panic!("a remainder in a determinant") } }
    impl Neg for E { type Output = E; fn neg(self) -> E { E(vec![]).join(self, true) } }
    impl num::Zero for E { fn zero() -> E { E(vec![]) } fn is_zero(&self) -> bool { self.0.is_empty() } }
    impl num::One for E { fn one() -> E { E(vec![(true, vec![], 0)]) } }
    impl num::Num for E { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<E, ()> { Err(()) } }
    impl PartialOrd for E { fn partial_cmp(&self, _: &E) -> Option<std::cmp::Ordering> { panic!("a comparison in a determinant") } }
    impl num::Signed for E {
        fn abs(&self) -> E { panic!("abs in a determinant") }
        fn abs_sub(&self, _: &E) -> E { panic!("abs in a determinant") }
        fn signum(&self) -> E { panic!("sign in a determinant") }
        fn is_positive(&self) -> bool { panic!("sign in a determinant") }
        fn is_negative(&self) -> bool { panic!("sign in a determinant") }
    }
    impl super::super::precision_types::FloatError for E { fn is_too_close_to_zero(&self, _: R) -> bool { panic!("a filter in a determinant") } }

    /// The largest number of roundings any product of the expansion goes through, if the terms are exactly
    /// those of the determinant.
    fn depth<const D: usize>(f: fn([[E; D]; D]) -> E) -> Option<u32> {
        let m: [[E; D]; D] = std::array::from_fn(|i| std::array::from_fn(|j| E::var((i * D + j) as u8)));
        let r = f(m);
        let mut want = std::collections::BTreeMap::new();
        fn go(d: usize, row: usize, used: &mut Vec<usize>, odd: bool, w: &mut std::collections::BTreeMap<Vec<u8>, bool>) {
            if row == d { w.insert(used.iter().enumerate().map(|(i, c)| (i * d + c) as u8).collect(), !odd); return }
            for c in 0..d { if !used.contains(&c) {
                let inv = used.iter().filter(|u| **u > c).count();
                used.push(c); go(d, row + 1, used, odd != (inv % 2 == 1), w); used.pop();
            } }
        }
        go(D, 0, &mut vec![], false, &mut want);
        let mut worst = 0;
        for (s, m, d) in &r.0 {
            if want.remove(m) != Some(*s) { return None }
            worst = worst.max(*d);
        }
        if want.is_empty() { Some(worst) } else { None }
    }

    fn sign_number(s: Sign) -> i32 { match s { Sign::Positive => 1, Sign::Negative => -1, Sign::Zero => 0 } }
    fn number_sign(x: R) -> i32 { if x > R::int(0) { 1 } else if x < R::int(0) { -1 } else { 0 } }

    pub fn run() {
        explore("determinant3x3", 4, || { let m = vars::<3>(); ensure_eq("determinant3x3 is the determinant", determinant3x3::<R>(m), leibniz(&m)) });
        explore("determinant4x4", 4, || { let m = vars::<4>(); ensure_eq("determinant4x4 is the determinant", determinant4x4::<R>(m), leibniz(&m)) });
        explore("determinant5x5", 4, || { let m = vars::<5>(); ensure_eq("determinant5x5 is the determinant", determinant5x5::<R>(m), leibniz(&m)) });
        explore("rounding", 2, || {
            for (n, d) in [(3, depth::<3>(determinant3x3::<E>)), (4, depth::<4>(determinant4x4::<E>)), (5, depth::<5>(determinant5x5::<E>))] {
                // another way of summing (fewer or shared roundings) is not wrong: only the bound is claimed
                match d {
                    Some(k) => ensure(&format!("determinant{n}x{n}: each product is rounded at most 32 times, so the float error is below 32u * sum of |products|"), k <= 32),
                    None => undecided(&format!("determinant{n}x{n}: rounding"), "not a plain expansion into products"),
                }
            }
        });
        explore("sign of a product", 64, || {
            for a in [Sign::Positive, Sign::Negative, Sign::Zero] { for b in [Sign::Positive, Sign::Negative, Sign::Zero] {
                ensure("Sign: the sign of a product is the product of the signs", sign_number(a * b) == sign_number(a) * sign_number(b));
                ensure("Sign: is_positive, is_negative", a.is_positive() == (sign_number(a) == 1) && a.is_negative() == (sign_number(a) == -1));
            } }
            let x = R::var("x");
            ensure("Sign::of is the sign", sign_number(Sign::of(x)) == number_sign(x));
            let e = R::var("e");
            match Sign::try_from_val(&x, e) {
                Ok(s) => { ensure("Sign::try_from_val: an answer is the sign", sign_number(s) == number_sign(x)); ensure("Sign::try_from_val: an answer means |x| >= epsilon", x.abs() >= e) }
                Err(_) => ensure("Sign::try_from_val: a refusal means |x| < epsilon", x.abs() < e),
            }
        });
        // the filter and the fall-back, for 1x1 and 2x2 matrices of any entries (the loops are the same for
        // every size); f and its exact counterpart are arbitrary
        thread_local! { static V: std::cell::Cell<R> = std::cell::Cell::new(R::int(0)); static W: std::cell::Cell<R> = std::cell::Cell::new(R::int(0)); }
        fn filter<const D: usize>() {
            let m = vars::<D>();
            let (v, w) = (R::var("float_result"), R::var("exact_result"));
            V.with(|x| x.set(v));
            W.with(|x| x.set(w));
            let e = R::var("epsilon");
            assume(e > R::int(0));
            let r = determine_sign_with_arbitrary_precision_if_necessary::<D>(m, |_| V.with(|x| x.get()), |_| X(W.with(|x| x.get())), e);
            match r {
                OperationResult::Float(s) => {
                    ensure("filter: a float answer is the sign of the float result", sign_number(s) == number_sign(v));
                    for row in &m { for x in row { ensure_le("filter: a float answer is given only for |result| >= epsilon |entry|, for every entry", e * x.abs(), v.abs()) } }
                }
                OperationResult::ArbitraryPrecision(s) => ensure("fall-back: the answer is the sign of the exact result", sign_number(s) == number_sign(w)),
            }
        }
        explore("filter 1x1", 500, filter::<1>);
        explore("filter 2x2", 20000, filter::<2>);
        explore("lift_matrix", 4, || {
            let m = vars::<3>();
            let l = lift_matrix(m);
            for i in 0..3 { for j in 0..3 { ensure_eq("lift_matrix keeps every entry in its place", l[i][j].0, m[i][j]) } }
        });
        report();
    }
}
