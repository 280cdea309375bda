use vstd::prelude::*;
verus! {
//@ include ../reals.rs
// ------------------------------------------------------------------------------------------ powers of numbers
pub type Dimensionless = R;
pub open spec fn pown(x: real, n: nat) -> real decreases n { if n == 0 { 1real } else { x * pown(x, (n - 1) as nat) } }
/// whole powers, also negative ones
pub open spec fn powz(x: real, n: int) -> real { if n >= 0 { pown(x, n as nat) } else { 1real / pown(x, (-n) as nat) } }
proof fn lemma_pown_positive(x: real, n: nat) requires x > 0real ensures pown(x, n) > 0real decreases n {
    if n > 0 { lemma_pown_positive(x, (n - 1) as nat); let p = pown(x, (n - 1) as nat); assert(x * p > 0real) by (nonlinear_arith) requires x > 0real, p > 0real; }
}
proof fn lemma_powz_positive(x: real, n: int) requires x > 0real ensures powz(x, n) > 0real {
    if n >= 0 { lemma_pown_positive(x, n as nat); } else {
        lemma_pown_positive(x, (-n) as nat);
        let p = pown(x, (-n) as nat);
        assert(1real / p > 0real) by (nonlinear_arith) requires p > 0real;
    }
}
/// one more factor
proof fn lemma_powz_step(x: real, n: int) requires x > 0real ensures powz(x, n + 1) == x * powz(x, n) {
    if n < 0 {
        let (p, q) = (pown(x, (-n) as nat), pown(x, (-n - 1) as nat));
        lemma_pown_positive(x, (-n - 1) as nat);
        assert(p == x * q);
        let (ip, iq) = (1real / p, 1real / q);
        assert(p > 0real) by (nonlinear_arith) requires p == x * q, x > 0real, q > 0real;
        assert(ip * p == 1real) by (nonlinear_arith) requires ip == 1real / p, p > 0real;
        assert(iq * q == 1real) by (nonlinear_arith) requires iq == 1real / q, q > 0real;
        assert(iq == x * ip) by (nonlinear_arith) requires ip * p == 1real, iq * q == 1real, p == x * q, q > 0real;
        if n == -1 { assert(q == 1real); assert(iq == 1real) by (nonlinear_arith) requires iq * q == 1real, q == 1real; }
    }
}
/// the power of a sum is the product of the powers
proof fn lemma_powz_add(x: real, m: int, n: int) requires x > 0real ensures powz(x, m + n) == powz(x, m) * powz(x, n) decreases if m >= 0 { m } else { -m } {
    if m > 0 {
        lemma_powz_add(x, m - 1, n);
        lemma_powz_step(x, m - 1);
        lemma_powz_step(x, m - 1 + n);
        let (a, b) = (powz(x, m - 1), powz(x, n));
        assert(x * (a * b) == (x * a) * b) by (nonlinear_arith);
    } else if m < 0 {
        lemma_powz_add(x, m + 1, n);
        lemma_powz_step(x, m);
        lemma_powz_step(x, m + n);
        let (a, b, c) = (powz(x, m), powz(x, n), powz(x, m + n));
        // x c == (x a) b
        assert(c == a * b) by (nonlinear_arith) requires x * c == (x * a) * b, x > 0real;
    }
}
proof fn lemma_powz_inverse(x: real, n: int) requires x > 0real ensures powz(x, n) * powz(x, -n) == 1real, 1real / powz(x, -n) == powz(x, n) {
    lemma_powz_add(x, n, -n);
    lemma_powz_positive(x, -n);
    let (a, b) = (powz(x, n), powz(x, -n));
    assert(1real / b == a) by (nonlinear_arith) requires a * b == 1real, b > 0real;
}
impl R {
    pub fn powi(self, n: i32) -> (x: R) ensures x.v() == powz(self.v(), n as int) { R { r: Ghost(powz(self.r@, n as int)) } }
    pub fn abs(self) -> (x: R) ensures x.v() == absv(self.v()) { R { r: Ghost(absv(self.r@)) } }
    #[verifier::external_body]
    pub fn le(&self, o: &R) -> (b: bool) ensures b == (self.v() <= o.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (b: bool) ensures b == (self.v() == 0real) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_sign_negative(&self) -> (b: bool) ensures b == (self.v() < 0real) { unimplemented!() }
    pub fn two() -> (x: R) ensures x.v() == 2real { R { r: Ghost(2real) } }
    pub fn hundredth() -> (x: R) ensures x.v() == 1real / 100real { R { r: Ghost(1real / 100real) } }
    pub fn thousandth() -> (x: R) ensures x.v() == 1real / 1000real { R { r: Ghost(1real / 1000real) } }
}
pub open spec fn absv(x: real) -> real { if x < 0real { -x } else { x } }

// ---------------------------------------------------------------------------------------------- dimensions
//@ extract src/units/dimension.rs :: struct Dimension
//@ rewrite * `#[dimension]` => ``
//@ end
impl Clone for Dimension { fn clone(&self) -> (d: Dimension) ensures d == *self { Dimension { length: self.length, time: self.time, mass: self.mass, temperature: self.temperature, h: self.h, a: self.a } } }
impl Copy for Dimension {}
/// no exponent is out of reach of negation and addition
pub open spec fn small(d: Dimension) -> bool { -1000000 < d.a < 1000000 && -1000000 < d.h < 1000000 && -1000000 < d.length < 1000000 && -1000000 < d.time < 1000000 && -1000000 < d.mass < 1000000 && -1000000 < d.temperature < 1000000 }
pub open spec fn product(d: Dimension, e: Dimension) -> Dimension { Dimension { length: (d.length + e.length) as i32, time: (d.time + e.time) as i32, mass: (d.mass + e.mass) as i32, temperature: (d.temperature + e.temperature) as i32, h: (d.h + e.h) as i32, a: (d.a + e.a) as i32 } }
/// LENGTH_TO_SI and the like: the factors of the base units, any positive numbers
pub uninterp spec fn length_si() -> real;
pub uninterp spec fn time_si() -> real;
pub uninterp spec fn mass_si() -> real;
pub uninterp spec fn temperature_si() -> real;
pub broadcast axiom fn axiom_si() ensures #![trigger length_si()] #![trigger time_si()] #![trigger mass_si()] #![trigger temperature_si()] length_si() > 0real, time_si() > 0real, mass_si() > 0real, temperature_si() > 0real;
fn vx_length_si() -> (x: R) ensures x.v() == length_si() { R { r: Ghost(length_si()) } }
fn vx_time_si() -> (x: R) ensures x.v() == time_si() { R { r: Ghost(time_si()) } }
fn vx_mass_si() -> (x: R) ensures x.v() == mass_si() { R { r: Ghost(mass_si()) } }
fn vx_temperature_si() -> (x: R) ensures x.v() == temperature_si() { R { r: Ghost(temperature_si()) } }
pub open spec fn base(d: Dimension) -> real { powz(length_si(), d.length as int) * powz(time_si(), d.time as int) * powz(mass_si(), d.mass as int) * powz(temperature_si(), d.temperature as int) }
impl Dimension {
    //@ extract src/units/dimension.rs :: impl Dimension :: fn non_cosmological
    //@ rewrite * `const fn` => `fn`
    //@ ret r
    //@ spec
        ensures r.length == self.length, r.time == self.time, r.mass == self.mass, r.temperature == self.temperature, r.h == 0, r.a == 0,
    //@ end
    //@ extract src/units/dimension.rs :: impl Dimension :: fn base_conversion_factor
    //@ rewrite * `f64` => `R`
    //@ rewrite * `(LENGTH_TO_SI)` => `vx_length_si()`
    //@ rewrite * `(TIME_TO_SI)` => `vx_time_si()`
    //@ rewrite * `(MASS_TO_SI)` => `vx_mass_si()`
    //@ rewrite * `(TEMPERATURE_TO_SI)` => `vx_temperature_si()`
    //@ ret r
    //@ spec
        ensures r.v() == base(*self),
    //@ end
}

// ------------------------------------------------------------------------------------------------ cosmology
//@ extract src/cosmology.rs :: struct CosmologyParams
//@ rewrite * `#[subsweep_parameters]` => ``
//@ rewrite * `#[derive(Copy, Named, Debug)]` => ``
//@ rewrite * `f64` => `R`
//@ end
impl Clone for CosmologyParams { fn clone(&self) -> (p: CosmologyParams) ensures p == *self { CosmologyParams { omega_0: self.omega_0, omega_lambda: self.omega_lambda } } }
impl Copy for CosmologyParams {}
//@ extract src/cosmology.rs :: enum Cosmology
//@ rewrite * `#[subsweep_parameters("cosmology")]` => ``
//@ rewrite * `#[derive(Named, Debug)]` => ``
//@ rewrite * `#[serde(untagged)]` => ``
//@ rewrite * `f64` => `R`
//@ end
/// what a quantity with these exponents is multiplied by to be physical: a and h to the power of minus their exponents
pub open spec fn factor(a: real, h: real, d: Dimension) -> real { powz(a, -(d.a as int)) * powz(h, -(d.h as int)) }
proof fn theorem_factor_composes(a: real, h: real, d: Dimension, e: Dimension)
    requires a > 0real, h > 0real, small(d), small(e),
    ensures factor(a, h, product(d, e)) == factor(a, h, d) * factor(a, h, e),
{
    lemma_powz_add(a, -(d.a as int), -(e.a as int));
    lemma_powz_add(h, -(d.h as int), -(e.h as int));
    let (w, x, y, z) = (powz(a, -(d.a as int)), powz(a, -(e.a as int)), powz(h, -(d.h as int)), powz(h, -(e.h as int)));
    assert((w * x) * (y * z) == (w * y) * (x * z)) by (nonlinear_arith);
    assert(-(product(d, e).a as int) == -(d.a as int) + -(e.a as int));
    assert(-(product(d, e).h as int) == -(d.h as int) + -(e.h as int));
}
proof fn theorem_factor_of_nothing(a: real, h: real, d: Dimension) requires d.a == 0, d.h == 0 ensures factor(a, h, d) == 1real { assert(pown(a, 0) == 1real); assert(pown(h, 0) == 1real); }
proof fn theorem_base_composes(d: Dimension, e: Dimension)
    requires small(d), small(e),
    ensures base(product(d, e)) == base(d) * base(e),
{
    broadcast use axiom_si;
    lemma_powz_add(length_si(), d.length as int, e.length as int);
    lemma_powz_add(time_si(), d.time as int, e.time as int);
    lemma_powz_add(mass_si(), d.mass as int, e.mass as int);
    lemma_powz_add(temperature_si(), d.temperature as int, e.temperature as int);
    let (l1, l2) = (powz(length_si(), d.length as int), powz(length_si(), e.length as int));
    let (t1, t2) = (powz(time_si(), d.time as int), powz(time_si(), e.time as int));
    let (m1, m2) = (powz(mass_si(), d.mass as int), powz(mass_si(), e.mass as int));
    let (k1, k2) = (powz(temperature_si(), d.temperature as int), powz(temperature_si(), e.temperature as int));
    assert((l1 * l2) * (t1 * t2) == (l1 * t1) * (l2 * t2)) by (nonlinear_arith);
    let (p1, p2) = (l1 * t1, l2 * t2);
    assert((p1 * p2) * (m1 * m2) == (p1 * m1) * (p2 * m2)) by (nonlinear_arith);
    let (q1, q2) = (p1 * m1, p2 * m2);
    assert((q1 * q2) * (k1 * k2) == (q1 * k1) * (q2 * k2)) by (nonlinear_arith);
}
//@ extract src/cosmology.rs :: fn scalefactor_to_redshift
//@ rewrite * `1.0` => `R::one()`
//@ ret r
//@ spec
    ensures r.v() == 1real / a.v() - 1real, a.v() > 0real ==> a.v() * (1real + r.v()) == 1real,
//@ entry
    assert(a.v() > 0real ==> a.v() * (1real / a.v()) == 1real) by (nonlinear_arith);
//@ end
impl Cosmology {
    //@ extract src/cosmology.rs :: impl Cosmology :: fn redshift
    //@ ret r
    //@ spec
        ensures match *self { Cosmology::Cosmological { a, .. } => a.v() > 0real ==> a.v() * (1real + r.v()) == 1real, Cosmology::NonCosmological => r.v() == 0real },
    //@ end
    //@ extract src/cosmology.rs :: impl Cosmology :: fn scale_factor
    //@ rewrite * `Dimensionless::dimensionless(*a)` => `*a`
    //@ rewrite * `Dimensionless::dimensionless(1.0)` => `R::one()`
    //@ ret r
    //@ spec
        ensures match *self { Cosmology::Cosmological { a, .. } => r == a, Cosmology::NonCosmological => r.v() == 1real },
    //@ end
    //@ extract src/cosmology.rs :: impl Cosmology :: fn little_h
    //@ rewrite * `Dimensionless::dimensionless(*h)` => `*h`
    //@ ret r
    //@ spec
        requires self is Cosmological,
        ensures r == self->h,
    //@ end
    //@ extract src/cosmology.rs :: impl Cosmology :: fn get_factor
    //@ rewrite * `f64` => `R`
    //@ ret r
    //@ spec
        requires self is Cosmological, small(*dimension),
        ensures r.v() == factor(self->a.v(), self->h.v(), *dimension),
    //@ end
}
/// a quantity: its number is all there is at run time
pub struct Quantity { pub n: R }
impl Quantity {
    fn new_unchecked(n: R) -> (q: Quantity) ensures q.n == n { Quantity { n } }
    //@ extract src/units/specific_impls.rs :: impl Quantity<S, D> where Quantity<S, { Dimension::non_cosmological(D) }>: , S: std::ops::Mul<f64, Output = S>, :: fn make_non_cosmological
    //@ rewrite * `self, cosmology: &Cosmology,` => `self, cosmology: &Cosmology, dimension: &Dimension,`
    //@ rewrite * `Quantity<S, { Dimension::non_cosmological(D) }>` => `Quantity`
    //@ rewrite * `self.0` => `self.n`
    //@ rewrite * `&D` => `dimension`
    //@ ret r
    //@ spec
        requires cosmology is Cosmological, small(*dimension),
        ensures r.n.v() == self.n.v() * factor(cosmology->a.v(), cosmology->h.v(), *dimension),
    //@ end
}

// ------------------------------------------------------------------------------------------- units of datasets
pub ghost enum Val { I(int), F(real) }
/// what is read of a dataset: its attributes
pub struct Dataset { pub attrs: Ghost<Map<Seq<char>, Val>> }
pub open spec fn int_attr(d: Dataset, n: Seq<char>) -> int { d.attrs@[n]->I_0 }
pub open spec fn has_int(d: Dataset, n: Seq<char>) -> bool { d.attrs@.contains_key(n) && d.attrs@[n] is I && -1000 < d.attrs@[n]->I_0 < 1000 }
/// assumed of HDF5: reading an attribute gives what it holds
#[verifier::external_body]
fn vx_get_i(d: &Dataset, n: &str) -> (r: i32) requires has_int(*d, n@) ensures r == int_attr(*d, n@) { unimplemented!() }
#[verifier::external_body]
fn vx_get_f(d: &Dataset, n: &str) -> (r: R) requires d.attrs@.contains_key(n@), d.attrs@[n@] is F ensures r.v() == d.attrs@[n@]->F_0 { unimplemented!() }
//@ extract src/arepo_postprocess/unit_reader.rs :: const SCALE_FACTOR_IDENTIFIER
//@ rewrite * `&str` => `&'static str`
//@ end
//@ extract src/arepo_postprocess/unit_reader.rs :: const LENGTH_IDENTIFIER
//@ rewrite * `&str` => `&'static str`
//@ end
//@ extract src/arepo_postprocess/unit_reader.rs :: const VELOCITY_IDENTIFIER
//@ rewrite * `&str` => `&'static str`
//@ end
//@ extract src/arepo_postprocess/unit_reader.rs :: const MASS_IDENTIFIER
//@ rewrite * `&str` => `&'static str`
//@ end
//@ extract src/arepo_postprocess/unit_reader.rs :: const A_IDENTIFIER
//@ rewrite * `&str` => `&'static str`
//@ end
//@ extract src/arepo_postprocess/unit_reader.rs :: const H_IDENTIFIER
//@ rewrite * `&str` => `&'static str`
//@ end
//@ extract src/units/dimension.rs :: const NONE
//@ end
pub open spec fn complete(d: Dataset) -> bool {
    has_int(d, LENGTH_IDENTIFIER@) && has_int(d, VELOCITY_IDENTIFIER@) && has_int(d, MASS_IDENTIFIER@) && has_int(d, A_IDENTIFIER@) && has_int(d, H_IDENTIFIER@)
        && d.attrs@.contains_key(SCALE_FACTOR_IDENTIFIER@) && d.attrs@[SCALE_FACTOR_IDENTIFIER@] is F
}
/// the dimension of a dataset: a velocity is a length per time
pub open spec fn dimension_in(d: Dataset) -> Dimension {
    Dimension { length: (int_attr(d, LENGTH_IDENTIFIER@) + int_attr(d, VELOCITY_IDENTIFIER@)) as i32, time: (-int_attr(d, VELOCITY_IDENTIFIER@)) as i32, mass: int_attr(d, MASS_IDENTIFIER@) as i32, temperature: 0,
        h: int_attr(d, H_IDENTIFIER@) as i32, a: int_attr(d, A_IDENTIFIER@) as i32 }
}
pub open spec fn cosmological(d: Dimension) -> bool { d.a != 0 || d.h != 0 }
pub open spec fn without(d: Dimension) -> Dimension { Dimension { length: d.length, time: d.time, mass: d.mass, temperature: d.temperature, h: 0, a: 0 } }
/// the factor to cgs, where 0 stands for none
pub open spec fn cgs(d: Dataset) -> real { if d.attrs@[SCALE_FACTOR_IDENTIFIER@]->F_0 == 0real { 1real } else { d.attrs@[SCALE_FACTOR_IDENTIFIER@]->F_0 } }
pub open spec fn usable(c: Cosmology, d: Dataset) -> bool { complete(d) && (cosmological(dimension_in(d)) ==> c is Cosmological && c->a.v() > 0real && c->h.v() > 0real) }
fn vx_require(b: bool) requires b {}
fn vx_same(d: Dimension, e: Dimension) -> (b: bool) ensures b == (d == e) { d.length == e.length && d.time == e.time && d.mass == e.mass && d.temperature == e.temperature && d.h == e.h && d.a == e.a }
pub struct ArepoUnitReader { pub cosmology: Cosmology }
//@ extract src/arepo_postprocess/unit_reader.rs :: fn is_cosmological
//@ ret r
//@ spec
    ensures r == cosmological(*dimension),
//@ end
impl ArepoUnitReader {
    //@ extract src/arepo_postprocess/unit_reader.rs :: impl ArepoUnitReader :: fn check_cosmology_available
    //@ spec
        requires self.cosmology is Cosmological,
    //@ end
    //@ extract src/arepo_postprocess/unit_reader.rs :: impl ArepoUnitReader :: fn get_cosmological_factor
    //@ rewrite * `f64` => `R`
    //@ ret r
    //@ spec
        requires self.cosmology is Cosmological, small(*dimension),
        ensures r.v() == factor(self.cosmology->a.v(), self.cosmology->h.v(), *dimension),
    //@ end
    //@ extract src/arepo_postprocess/unit_reader.rs :: impl ArepoUnitReader :: fn read_raw_dimension
    //@ rewrite 1 `let read_attr = |ident, name| { set.attr(ident).unwrap_or_else(|_| panic!("No {} in dataset: '{}'", name, set.name())).read_scalar().unwrap() };` => ``
    //@ rewrite * `read_attr(LENGTH_IDENTIFIER, "length scale factor")` => `vx_get_i(set, LENGTH_IDENTIFIER)`
    //@ rewrite * `read_attr(MASS_IDENTIFIER, "mass scale factor")` => `vx_get_i(set, MASS_IDENTIFIER)`
    //@ rewrite * `read_attr(VELOCITY_IDENTIFIER, "velocity scale factor")` => `vx_get_i(set, VELOCITY_IDENTIFIER)`
    //@ rewrite * `read_attr(A_IDENTIFIER, "a scale factor")` => `vx_get_i(set, A_IDENTIFIER)`
    //@ rewrite * `read_attr(H_IDENTIFIER, "h scale factor")` => `vx_get_i(set, H_IDENTIFIER)`
    //@ ret r
    //@ spec
        requires complete(*set),
        ensures r == dimension_in(*set), small(r),
    //@ end
    //@ extract src/arepo_postprocess/unit_reader.rs :: impl UnitReader for ArepoUnitReader :: fn read_scale_factor
    //@ rewrite * `set.attr(SCALE_FACTOR_IDENTIFIER).expect("No scale factor in dataset").read_scalar().unwrap()` => `vx_get_f(set, SCALE_FACTOR_IDENTIFIER)`
    //@ rewrite * `f64` => `R`
    //@ rewrite * `1.0` => `R::one()`
    //@ rewrite * `0.01R` => `R::hundredth()`
    //@ rewrite * `0.001R` => `R::thousandth()`
    //@ rewrite * `0.01f64` => `R::hundredth()`
    //@ rewrite * `0.001f64` => `R::thousandth()`
    //@ rewrite * `cgs == 0.0` => `cgs.is_zero()`
    //@ rewrite * `assert_eq!(dimension, NONE)` => `vx_require(vx_same(dimension, NONE))`
    //@ rewrite * `debug!("Unit scale factor is 0 in dimensionless dataset. Assuming 1.");` => ``
    //@ ret r
    //@ spec
        requires usable(self.cosmology, *set), set.attrs@[SCALE_FACTOR_IDENTIFIER@]->F_0 == 0real ==> dimension_in(*set) == NONE,
        ensures
            // to SI, and to a physical quantity: times a and h to the power the dataset has them in
            ({
                let d = dimension_in(*set);
                let (a, h) = (self.cosmology->a.v(), self.cosmology->h.v());
                r.v() == (if cosmological(d) { powz(a, d.a as int) * powz(h, d.h as int) } else { 1real }) * (powz(1real / 100real, d.length as int) * powz(1real / 1000real, d.mass as int)) * cgs(*set)
            }),
    //@ entry
        proof {
            let d = dimension_in(*set);
            if cosmological(d) {
                let (a, h) = (self.cosmology->a.v(), self.cosmology->h.v());
                lemma_powz_inverse(a, d.a as int);
                lemma_powz_inverse(h, d.h as int);
                lemma_powz_positive(a, -(d.a as int));
                lemma_powz_positive(h, -(d.h as int));
                let (p, q, ip, iq) = (powz(a, -(d.a as int)), powz(h, -(d.h as int)), powz(a, d.a as int), powz(h, d.h as int));
                let f = p * q;
                assert(f > 0real) by (nonlinear_arith) requires f == p * q, p > 0real, q > 0real;
                assert(f * (ip * iq) == (ip * p) * (iq * q)) by (nonlinear_arith) requires f == p * q;
                assert((ip * p) * (iq * q) == 1real) by (nonlinear_arith) requires ip * p == 1real, iq * q == 1real;
                let g = ip * iq;
                assert(1real / f == g) by (nonlinear_arith) requires f * g == 1real, f > 0real;
            }
        }
    //@ end
    //@ extract src/arepo_postprocess/unit_reader.rs :: impl UnitReader for ArepoUnitReader :: fn read_dimension
    //@ ret r
    //@ spec
        requires usable(self.cosmology, *set),
        ensures r == without(dimension_in(*set)),
    //@ end
}

// ---------------------------------------------------------------------------------- the scale factor at a time
pub open spec fn pow2(n: nat) -> real decreases n { if n == 0 { 1real } else { 2real * pow2((n - 1) as nat) } }
proof fn lemma_pow2(n: nat) ensures pow2(n) >= 1real decreases n { if n > 0 { lemma_pow2((n - 1) as nat); } }
/// g does not change by more than l times as much as its argument
pub open spec fn steep(g: spec_fn(real) -> real, l: real) -> bool { forall|x: real, y: real| 0real <= x <= y ==> absv(#[trigger] g(y) - #[trigger] g(x)) <= l * (y - x) }
pub open spec fn computes<F: Fn(R) -> R>(f: F, g: spec_fn(real) -> real) -> bool { (forall|x: R| #[trigger] f.requires((x,))) && (forall|x: R, y: R| #[trigger] f.ensures((x,), y) ==> y.v() == g(x.v())) }
proof fn lemma_half(g: spec_fn(real) -> real, l: real, min: real, max: real, mid: real)
    requires steep(g, l), 0real <= min <= max, mid == (min + max) / 2real, g(min) <= 0real <= g(max),
    ensures min <= mid <= max, absv(g(mid)) * 2real <= l * (max - min), 2real * (l * (max - mid)) == l * (max - min), 2real * (l * (mid - min)) == l * (max - min),
{
    assert(absv(g(mid) - g(min)) <= l * (mid - min));
    assert(absv(g(max) - g(mid)) <= l * (max - mid));
    assert(2real * (l * (max - mid)) == l * (max - min)) by (nonlinear_arith) requires mid == (min + max) / 2real;
    assert(2real * (l * (mid - min)) == l * (max - min)) by (nonlinear_arith) requires mid == (min + max) / 2real;
}
//@ extract src/cosmology.rs :: fn binary_search
//@ rewrite * `impl Fn(f64) -> f64` => `impl Fn(R) -> R`
//@ rewrite * `f64` => `R`
//@ rewrite * `threshold: R)` => `threshold: R, Ghost(g): Ghost<spec_fn(real) -> real>, Ghost(l): Ghost<real>)`
//@ rewrite * `threshold, 0)` => `threshold, 0, Ghost(g), Ghost(l))`
//@ ret r
//@ spec
    requires computes(f, g), steep(g, l), 0real <= min.v() <= max.v(), g(min.v()) <= 0real <= g(max.v()), threshold.v() > 0real, l * (max.v() - min.v()) <= threshold.v() * pow2(101),
    ensures min.v() <= r.v() <= max.v(), absv(g(r.v())) <= threshold.v(),
//@ end
//@ extract src/cosmology.rs :: fn depth_limited_binary_search
//@ rewrite * `const MAX_DEPTH: usize = 100;` => ``
//@ rewrite * `MAX_DEPTH` => `100`
//@ rewrite * `impl Fn(f64) -> f64` => `impl Fn(R) -> R`
//@ rewrite * `f64` => `R`
//@ rewrite * `depth: usize,` => `depth: usize, Ghost(g): Ghost<spec_fn(real) -> real>, Ghost(l): Ghost<real>`
//@ rewrite * `depth + 1)` => `depth + 1, Ghost(g), Ghost(l))`
//@ rewrite * `2.0` => `R::two()`
//@ rewrite * `val.abs() <= threshold` => `val.abs().le(&threshold)`
//@ ret r
//@ spec
    // a root is found, in time
    requires computes(f, g), steep(g, l), 0real <= min.v() <= max.v(), g(min.v()) <= 0real <= g(max.v()), threshold.v() > 0real, depth <= 100, l * (max.v() - min.v()) <= threshold.v() * pow2((101 - depth) as nat),
    ensures min.v() <= r.v() <= max.v(), absv(g(r.v())) <= threshold.v(),
    decreases 101 - depth,
//@ entry
    proof {
        let mid = (min.v() + max.v()) / 2real;
        lemma_half(g, l, min.v(), max.v(), mid);
        let (t, p, q) = (threshold.v(), pow2((101 - depth) as nat), pow2((100 - depth) as nat));
        assert(p == 2real * q);
        assert(t * p == 2real * (t * q)) by (nonlinear_arith) requires p == 2real * q;
        if depth == 100 { assert(q == 1real); assert(t * q == t); }
    }
//@ end
/// the time between two scale factors (its contract is that of the symbolic part)
pub uninterp spec fn between(p: CosmologyParams, a0: real, a1: real, h: real) -> real;
pub type Time = R;
pub open spec fn hundred_years() -> real { 3155760000real }
fn vx_hundred_years() -> (x: R) ensures x.v() == hundred_years() { R { r: Ghost(hundred_years()) } }
impl CosmologyParams {
    #[verifier::external_body]
    pub fn time_difference_between_scalefactors(&self, a0: R, a1: R, h: R) -> (t: R) ensures t.v() == between(*self, a0.v(), a1.v(), h.v()) { unimplemented!() }
    #[verifier::exec_allows_no_decreases_clause]
    //@ extract src/cosmology.rs :: impl CosmologyParams :: fn get_scalefactor_from_scalefactor_and_time_difference
    //@ rewrite 1 `let difference = |a1: f64| { (self.time_difference_between_scalefactors(a, a1.into(), h) - delta_t).value_unchecked() };` => `let difference = |a1: R| -> (y: R) ensures y.v() == between(*self, a.v(), a1.v(), h.v()) - delta_t.v() { self.time_difference_between_scalefactors(a, a1, h) - delta_t };`
    //@ rewrite 1 `difference(max) < 0.0` => `difference(max).lt(&R::zero())`
    //@ rewrite 1 `max *= 2.0` => `max = max * R::two()`
    //@ rewrite 1 `let min = 0.0` => `let min = R::zero()`
    //@ rewrite 1 `let mut max = 1.0` => `let mut max = R::one()`
    //@ rewrite 1 `Time::years(100.0).value_unchecked()).into()` => `vx_hundred_years(), Ghost(g), Ghost(l))`
    //@ rewrite * `delta_t: Time,` => `delta_t: Time, Ghost(l): Ghost<real>, Ghost(m): Ghost<real>`
    //@ ret r
    //@ spec
        requires
            // time goes on with the scale factor, at a bounded pace; the time asked for is after the beginning, and before the scale factor is m
            steep(|x: real| between(*self, a.v(), x, h.v()) - delta_t.v(), l), 0real <= l, 1real <= m, l * (2real * m) <= hundred_years() * pow2(101),
            between(*self, a.v(), 0real, h.v()) <= delta_t.v(), forall|x: real| x >= m ==> #[trigger] between(*self, a.v(), x, h.v()) >= delta_t.v(),
        ensures r.v() >= 0real, absv(between(*self, a.v(), r.v(), h.v()) - delta_t.v()) <= hundred_years(),
    //@ entry
        let ghost g = |x: real| between(*self, a.v(), x, h.v()) - delta_t.v();
    //@ loop 0 spec
        invariant
            computes(difference, g), g == (|x: real| between(*self, a.v(), x, h.v()) - delta_t.v()), 1real <= max.v() <= 2real * m, forall|x: real| x >= m ==> #[trigger] between(*self, a.v(), x, h.v()) >= delta_t.v(), 1real <= m,
        ensures g(max.v()) >= 0real,
    //@ loop 0 after
        proof {
            let (x, y) = (max.v(), 2real * m);
            assert(l * x <= l * y) by (nonlinear_arith) requires 0real <= l, x <= y;
            assert(l * (x - 0real) == l * x);
        }
    //@ end
}
}
fn main() {}
