use vstd::prelude::*;
verus! {
//@ include ../vx_helpers.rs
//@ include ../reals.rs
// ------------------------------------------------------------------------------------------------- numbers
pub type Temperature = R;
pub type Dimensionless = R;
pub type Time = R;
pub type Density = R;
pub type Volume = R;
pub type Length = R;
pub type PhotonRate = R;
pub open spec fn absv(x: real) -> real { if x < 0real { -x } else { x } }
pub open spec fn minv(x: real, y: real) -> real { if x < y { x } else { y } }
pub open spec fn clampv(x: real, a: real, b: real) -> real { if x < a { a } else if x > b { b } else { x } }
/// assumed of a quotient whose divisor is zero (the machine has infinity there): it is more than one
pub uninterp spec fn by_zero(x: real) -> real;
pub broadcast axiom fn axiom_by_zero(x: real) ensures x > 0real ==> #[trigger] by_zero(x) >= 1real;
pub open spec fn overv(x: real, y: real) -> real { if y == 0real { by_zero(x) } else { x / y } }
impl R {
    pub fn abs(self) -> (x: R) ensures x.v() == absv(self.v()) { R { r: Ghost(absv(self.r@)) } }
    pub fn min(self, o: R) -> (x: R) ensures x.v() == minv(self.v(), o.v()) { R { r: Ghost(minv(self.r@, o.r@)) } }
    pub fn max(self, o: R) -> (x: R) ensures x.v() == (if self.v() < o.v() { o.v() } else { self.v() }) { R { r: Ghost(if self.r@ < o.r@ { o.r@ } else { self.r@ }) } }
    /// panics if the bounds are in the wrong order
    pub fn clamp(self, a: R, b: R) -> (x: R) requires a.v() <= b.v() ensures x.v() == clampv(self.v(), a.v(), b.v()) { R { r: Ghost(clampv(self.r@, a.r@, b.r@)) } }
    pub fn over(self, o: R) -> (x: R) ensures x.v() == overv(self.v(), o.v()) { R { r: Ghost(overv(self.r@, o.r@)) } }
    pub fn two() -> (x: R) ensures x.v() == 2real { R { r: Ghost(2real) } }
    pub fn ten() -> (x: R) ensures x.v() == 10real { R { r: Ghost(10real) } }
}
/// IONIZED_HYDROGEN_FRACTION_EPSILON, assumed to be small and positive
pub uninterp spec fn eps() -> real;
pub broadcast axiom fn axiom_eps() ensures #![trigger eps()] 0real < eps() < 1real / 2real;
fn vx_eps() -> (x: R) ensures x.v() == eps() { R { r: Ghost(eps()) } }
pub open spec fn f64_eps() -> real { 1real / 4503599627370496real }
fn vx_f64_eps() -> (x: R) ensures x.v() == f64_eps() { R { r: Ghost(f64_eps()) } }

//@ extract src/chemistry/timescale.rs :: enum Process
//@ rewrite * `#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]` => ``
//@ end
impl Clone for Process { fn clone(&self) -> (p: Process) ensures p == *self { match self { Process::Temperature => Process::Temperature, Process::IonizationFraction => Process::IonizationFraction, Process::PhotonRate => Process::PhotonRate } } }
impl Copy for Process {}
//@ extract src/chemistry/timescale.rs :: struct Timescale
//@ rewrite * `#[derive(Clone, Copy)]` => ``
//@ end
impl Clone for Timescale { fn clone(&self) -> (p: Timescale) ensures p == *self { Timescale { time: self.time, process: self.process } } }
impl Copy for Timescale {}
impl Timescale {
    //@ extract src/chemistry/timescale.rs :: impl Timescale :: fn ionization_fraction
    //@ ret r
    //@ spec
        ensures r.time == time, r.process == Process::IonizationFraction,
    //@ end
    //@ extract src/chemistry/timescale.rs :: impl Timescale :: fn temperature
    //@ ret r
    //@ spec
        ensures r.time == time, r.process == Process::Temperature,
    //@ end
    //@ extract src/chemistry/timescale.rs :: impl Timescale :: fn photon_rate
    //@ ret r
    //@ spec
        ensures r.time == time, r.process == Process::PhotonRate,
    //@ end
    //@ extract src/chemistry/timescale.rs :: impl Timescale :: fn min
    //@ rewrite * `self.time < other.time` => `self.time.lt(&other.time)`
    //@ ret r
    //@ spec
        ensures r == *self || r == other, r.time.v() <= self.time.v(), r.time.v() <= other.time.v(),
    //@ end
}

// ------------------------------------------------------------------------------------- one step of the solver
//@ extract src/chemistry/hydrogen_only/mod.rs :: struct TimestepCriterionViolated
//@ end
//@ extract src/chemistry/hydrogen_only/mod.rs :: struct TimestepConvergenceFailed
//@ end
//@ extract src/chemistry/hydrogen_only/mod.rs :: struct Solver
//@ rewrite * `#[derive(Debug)]` => ``
//@ rewrite * `pub(crate)` => `pub`
//@ end
/// what a timestep does not change
pub ghost struct Par { pub density: R, pub volume: R, pub length: R, pub rate: R, pub scale_factor: R, pub floor: Option<(R, R)> }
pub ghost struct St { pub t: real, pub x: real }
impl Solver {
    pub open spec fn par(&self) -> Par { Par { density: self.density, volume: self.volume, length: self.length, rate: self.rate, scale_factor: self.scale_factor, floor: self.floor } }
    pub open spec fn st(&self) -> St { St { t: self.temperature.v(), x: self.ionized_hydrogen_fraction.v() } }
}
/// what the changes of temperature and ionized fraction in a time dt are (their contracts are those of the symbolic part)
pub uninterp spec fn dtemp(p: Par, s: St, dt: real) -> real;
pub uninterp spec fn dfrac(p: Par, s: St, dt: real) -> real;
pub open spec fn floor_x(p: Par) -> real { clampv(match p.floor { Some(f) => f.1.v(), None => eps() }, eps(), 1real - eps()) }
pub open spec fn clamped(p: Par, s: St) -> St {
    St { t: match p.floor { Some(f) => if s.t < f.0.v() { f.0.v() } else { s.t }, None => s.t }, x: clampv(s.x, floor_x(p), 1real - eps()) }
}
/// a state the solver may be left in
pub open spec fn fine(p: Par, s: St) -> bool {
    &&& s.t > 0real
    &&& eps() <= s.x <= 1real - eps()
    // nothing falls below where it started if cooling is prevented
    &&& s.x >= floor_x(p)
    &&& match p.floor { Some(f) => s.t >= f.0.v(), None => true }
}
/// one step of length dt: both values change by their rates (the fraction with the new temperature), by at most the allowed fraction of what they are
pub open spec fn step(p: Par, allowed: real, s: St, dt: real, e: St) -> bool {
    let a = dtemp(p, s, dt);
    let m = St { t: s.t + a, x: s.x };
    let b = dfrac(p, m, dt);
    absv(a / s.t) <= allowed && absv(b / s.x) <= allowed && e == clamped(p, St { t: m.t, x: s.x + b })
}
/// steps of the given lengths lead from s to e
pub open spec fn path(p: Par, allowed: real, s: St, dts: Seq<real>, e: St) -> bool decreases dts.len() {
    if dts.len() == 0 { e == s } else { exists|m: St| #[trigger] step(p, allowed, s, dts[0], m) && path(p, allowed, m, dts.drop_first(), e) }
}
pub open spec fn total(dts: Seq<real>) -> real decreases dts.len() { if dts.len() == 0 { 0real } else { dts[0] + total(dts.drop_first()) } }
proof fn lemma_path(p: Par, allowed: real, s: St, d1: Seq<real>, m: St, d2: Seq<real>, e: St)
    requires path(p, allowed, s, d1, m), path(p, allowed, m, d2, e),
    ensures path(p, allowed, s, d1 + d2, e), total(d1 + d2) == total(d1) + total(d2),
    decreases d1.len(),
{
    if d1.len() == 0 { assert(d1 + d2 =~= d2); } else {
        let n = choose|n: St| #[trigger] step(p, allowed, s, d1[0], n) && path(p, allowed, n, d1.drop_first(), m);
        lemma_path(p, allowed, n, d1.drop_first(), m, d2, e);
        assert((d1 + d2).drop_first() =~= d1.drop_first() + d2);
        assert(step(p, allowed, s, (d1 + d2)[0], n));
    }
}
/// the time over which, at the rate of this step, the first of both values would have changed by the allowed fraction
pub open spec fn scale(p: Par, allowed: real, s: St, dt: real) -> real {
    let a = dtemp(p, s, dt);
    let b = dfrac(p, St { t: s.t + a, x: s.x }, dt);
    minv(dt * overv(allowed, absv(a / s.t)), dt * overv(allowed, absv(b / s.x)))
}
/// the whole timestep is covered: steps of lengths dts lead to m, one more of length d to e; last is the time scale of that one
pub open spec fn covered_by(p: Par, allowed: real, s: St, dt: real, e: St, last: real, dts: Seq<real>, m: St, d: real) -> bool {
    path(p, allowed, s, dts, m) && step(p, allowed, m, d, e) && total(dts) + d == dt && d > 0real && last == scale(p, allowed, m, d) && last >= d && forall|i: int| 0 <= i < dts.len() ==> dts[i] > 0real
}
pub open spec fn covered(p: Par, allowed: real, s: St, dt: real, e: St, last: real) -> bool {
    exists|dts: Seq<real>, m: St, d: real| #[trigger] covered_by(p, allowed, s, dt, e, last, dts, m, d)
}
proof fn lemma_single(p: Par, allowed: real, s: St, dt: real, e: St, last: real)
    requires step(p, allowed, s, dt, e), dt > 0real, last >= dt, last == scale(p, allowed, s, dt),
    ensures covered(p, allowed, s, dt, e, last),
{
    let d = Seq::<real>::empty();
    assert(path(p, allowed, s, d, s));
    assert(total(d) == 0real);
    assert(covered_by(p, allowed, s, dt, e, last, d, s, dt));
}
proof fn lemma_then(p: Par, allowed: real, s: St, dts: Seq<real>, m: St, d: real, e: St)
    requires path(p, allowed, s, dts, m), step(p, allowed, m, d, e),
    ensures path(p, allowed, s, dts + seq![d], e), total(dts + seq![d]) == total(dts) + d,
{
    let o = seq![d];
    assert(o.drop_first() =~= Seq::<real>::empty());
    assert(path(p, allowed, e, o.drop_first(), e));
    assert(total(o.drop_first()) == 0real);
    assert(step(p, allowed, m, o[0], e));
    assert(path(p, allowed, m, o, e));
    assert(total(o) == d);
    lemma_path(p, allowed, s, dts, m, o, e);
}
proof fn lemma_both(p: Par, allowed: real, s: St, d1: real, m: St, l1: real, d2: real, e: St, last: real)
    requires covered(p, allowed, s, d1, m, l1), covered(p, allowed, m, d2, e, last),
    ensures covered(p, allowed, s, d1 + d2, e, last),
{
    let (a, m1, x1) = choose|dts: Seq<real>, n: St, d: real| #[trigger] covered_by(p, allowed, s, d1, m, l1, dts, n, d);
    let (b, m2, x2) = choose|dts: Seq<real>, n: St, d: real| #[trigger] covered_by(p, allowed, m, d2, e, last, dts, n, d);
    lemma_then(p, allowed, s, a, m1, x1, m);
    lemma_path(p, allowed, s, a + seq![x1], m, b, m2);
    let c = (a + seq![x1]) + b;
    assert(covered_by(p, allowed, s, d1 + d2, e, last, c, m2, x2));
}
proof fn lemma_keeps_sign(v: real, c: real, a: real)
    requires v > 0real, a < 1real, absv(c / v) <= a,
    ensures v + c > 0real,
{
    let q = c / v;
    assert(q * v == c) by (nonlinear_arith) requires q == c / v, v > 0real;
    assert(v + c > 0real) by (nonlinear_arith) requires q * v == c, q > -1real, v > 0real;
}
proof fn lemma_recommendation(dt: real, a: real, rel: real)
    requires dt > 0real, a > 0real, 0real <= rel <= a,
    ensures dt * overv(a, rel) >= dt,
{
    broadcast use axiom_by_zero;
    let q = overv(a, rel);
    if rel != 0real {
        assert(q * rel == a) by (nonlinear_arith) requires q == a / rel, rel != 0real;
        assert(q >= 1real) by (nonlinear_arith) requires q * rel == a, 0real < rel <= a;
    }
    assert(dt * q >= dt) by (nonlinear_arith) requires q >= 1real, dt > 0real;
}

//@ extract src/chemistry/hydrogen_only/mod.rs :: fn update
//@ rewrite * `<const D: Dimension>` => ``
//@ rewrite * `where Quantity<f64, D>: Div<Quantity<f64, D>, Output = Dimensionless>,` => ``
//@ rewrite * `Quantity<f64, D>` => `R`
//@ rewrite * `1.0 / f64::EPSILON` => `R::one() / vx_f64_eps()`
//@ rewrite * `relative_change > max_allowed_change` => `max_allowed_change.lt(&relative_change)`
//@ rewrite * `max_allowed_change / relative_change` => `max_allowed_change.over(relative_change)`
//@ ret r
//@ spec
    requires old(value).v() != 0real, 0real < max_allowed_change.v() < 1real, timestep.v() > 0real,
    ensures
        r is Ok == (absv(change.v() / old(value).v()) <= max_allowed_change.v()),
        r is Ok ==> final(value).v() == old(value).v() + change.v() && r->Ok_0.v() >= timestep.v() && r->Ok_0.v() == timestep.v() * overv(max_allowed_change.v(), absv(change.v() / old(value).v())),
        r is Err ==> final(value).v() == old(value).v(),
//@ entry
    proof {
        let rel = absv(change.v() / old(value).v());
        if rel <= max_allowed_change.v() { lemma_recommendation(timestep.v(), max_allowed_change.v(), rel); }
        assert(1real / f64_eps() == 4503599627370496real) by (nonlinear_arith) requires f64_eps() == 1real / 4503599627370496real;
    }
//@ end
//@ extract src/chemistry/hydrogen_only/mod.rs :: const MAX_DEPTH
//@ end
impl Solver {
    #[verifier::external_body]
    fn temperature_change(&mut self, timestep: Time) -> (r: Temperature) ensures *final(self) == *old(self), r.v() == dtemp(old(self).par(), old(self).st(), timestep.v()) { unimplemented!() }
    #[verifier::external_body]
    fn ionized_fraction_change(&mut self, timestep: Time) -> (r: Dimensionless) ensures *final(self) == *old(self), r.v() == dfrac(old(self).par(), old(self).st(), timestep.v()) { unimplemented!() }
    //@ extract src/chemistry/hydrogen_only/mod.rs :: impl Solver :: fn clamp
    //@ rewrite * `self.floor.map(|(_, xhii)| *xhii)` => `vx_second(self.floor)`
    //@ rewrite * `IONIZED_HYDROGEN_FRACTION_EPSILON` => `vx_eps()`
    //@ rewrite * `1.0` => `R::one()`
    //@ rewrite * `self.temperature < temp_floor` => `self.temperature.lt(&temp_floor)`
    //@ spec
        requires old(self).st().t > 0real,
        ensures final(self).par() == old(self).par(), final(self).st() == clamped(old(self).par(), old(self).st()), fine(final(self).par(), final(self).st()),
    //@ entry
        broadcast use axiom_eps;
    //@ end
    //@ extract src/chemistry/hydrogen_only/mod.rs :: impl Solver :: fn try_timestep_update
    //@ ret r
    //@ spec
        requires fine(old(self).par(), old(self).st()), 0real < timestep_safety_factor.v() < 1real, timestep.v() > 0real,
        ensures
            final(self).par() == old(self).par(),
            r is Ok ==> step(old(self).par(), timestep_safety_factor.v(), old(self).st(), timestep.v(), final(self).st()) && fine(final(self).par(), final(self).st()) && r->Ok_0.time.v() >= timestep.v()
                && r->Ok_0.time.v() == scale(old(self).par(), timestep_safety_factor.v(), old(self).st(), timestep.v()),
    //@ entry
        broadcast use axiom_eps;
        let ghost s0 = self.st();
        let ghost p0 = self.par();
        proof {
            let a = dtemp(p0, s0, timestep.v());
            if absv(a / s0.t) <= timestep_safety_factor.v() { lemma_keeps_sign(s0.t, a, timestep_safety_factor.v()); }
        }
    //@ end
    //@ extract src/chemistry/hydrogen_only/mod.rs :: impl Solver :: fn perform_timestep_internal
    //@ rewrite * `2.0` => `R::two()`
    //@ rewrite * `(self.temperature, self.ionized_hydrogen_fraction) = initial_state;` => `self.temperature = initial_state.0; self.ionized_hydrogen_fraction = initial_state.1;`
    //@ ret r
    //@ spec
        requires old(self).st().t > 0real, 0real < timestep_safety_factor.v() < 1real, timestep.v() > 0real, depth <= max_depth + 1, max_depth < 1000000,
        ensures
            final(self).par() == old(self).par(),
            fine(final(self).par(), final(self).st()),
            // the whole timestep is covered, each part by a step that changes neither value by more than allowed
            r is Ok ==> covered(old(self).par(), timestep_safety_factor.v(), clamped(old(self).par(), old(self).st()), timestep.v(), final(self).st(), r->Ok_0.time.v()),
        decreases max_depth + 1 - depth,
    //@ entry
        let ghost p = self.par();
        let ghost s = clamped(self.par(), self.st());
        proof {
            let (al, h) = (timestep_safety_factor.v(), timestep.v() / 2real);
            assert forall|e: St, last: real| #[trigger] step(p, al, s, timestep.v(), e) && last >= timestep.v() && last == scale(p, al, s, timestep.v()) implies #[trigger] covered(p, al, s, timestep.v(), e, last) by { lemma_single(p, al, s, timestep.v(), e, last); }
            assert forall|m: St, l1: real, e: St, last: real| #[trigger] covered(p, al, s, h, m, l1) && #[trigger] covered(p, al, m, h, e, last) implies covered(p, al, s, h + h, e, last) by { lemma_both(p, al, s, h, m, l1, h, e, last); }
            assert forall|m: St| #[trigger] fine(p, m) implies clamped(p, m) == m by {}
            assert(timestep.v() / 2real > 0real && timestep.v() / 2real + timestep.v() / 2real == timestep.v()) by (nonlinear_arith) requires timestep.v() > 0real;
        }
    //@ end
    //@ extract src/chemistry/hydrogen_only/mod.rs :: impl Solver :: fn perform_timestep
    //@ rewrite * `log::error!("Failed to find timestep in chemistry. Solver state: {:?}", self);` => ``
    //@ rewrite * `|_| {` => `|_e: TimestepConvergenceFailed| -> (ret: Timescale) ensures ret.time.v() == timestep.v() / 10real {`
    //@ rewrite * `10.0` => `R::ten()`
    //@ rewrite * `self.perform_timestep_internal(timestep, timestep_safety_factor, 0, MAX_DEPTH).unwrap_or_else(` => `vx_or_else(self.perform_timestep_internal(timestep, timestep_safety_factor, 0, MAX_DEPTH), `
    //@ ret r
    //@ spec
        requires old(self).st().t > 0real, 0real < timestep_safety_factor.v() < 1real, timestep.v() > 0real,
        ensures
            final(self).par() == old(self).par(),
            fine(final(self).par(), final(self).st()),
            covered(old(self).par(), timestep_safety_factor.v(), clamped(old(self).par(), old(self).st()), timestep.v(), final(self).st(), r.time.v()) || r.time.v() == timestep.v() / 10real,
    //@ end
}
/// Result::unwrap_or_else
fn vx_or_else<T, E, F: FnOnce(E) -> T>(r: Result<T, E>, f: F) -> (t: T)
    requires forall|e: E| f.requires((e,)),
    ensures match r { Ok(x) => t == x, Err(e) => f.ensures((e,), t) },
{ match r { Ok(x) => x, Err(e) => f(e) } }
fn vx_second(f: Option<(R, R)>) -> (r: Option<R>) ensures r == (match f { Some(p) => Some(p.1), None => None }) { match f { Some(p) => Some(p.1), None => None } }

// ------------------------------------------------------------------------------------------ the cell's state
pub struct HydrogenOnlySpecies { pub ionized_hydrogen_fraction: Dimensionless, pub temperature: Temperature, pub timestep: Time }
/// what the chemistry sees of a site
pub struct Site { pub species: HydrogenOnlySpecies, pub density: Density }
//@ extract src/chemistry/hydrogen_only/mod.rs :: struct HydrogenOnly
//@ rewrite * `#[derive(Debug)]` => ``
//@ end
pub trait VxKeep: Sized { spec fn kept(self, b: bool) -> Self; fn vx_keep_if(self, b: bool) -> (r: Self) ensures r == self.kept(b); }
impl<T> VxKeep for Option<T> {
    open spec fn kept(self, b: bool) -> Self { if b { self } else { None } }
    fn vx_keep_if(self, b: bool) -> (r: Self) { if b { self } else { None } }
}
impl HydrogenOnly {
    //@ extract src/chemistry/hydrogen_only/mod.rs :: impl Chemistry for HydrogenOnly :: fn update_abundances
    //@ rewrite * `Self::Photons` => `R`
    //@ rewrite * `Site<Self>` => `Site`
    //@ rewrite * `.filter(|_| self.prevent_cooling)` => `.vx_keep_if(self.prevent_cooling)`
    //@ ret r
    //@ spec
        requires old(site).species.temperature.v() > 0real, 0real < self.timestep_safety_factor.v() < 1real, timestep.v() > 0real,
        ensures
            final(site).density == old(site).density,
            final(site).species.timestep == r.time,
            final(site).species.temperature.v() > 0real,
            eps() <= final(site).species.ionized_hydrogen_fraction.v() <= 1real - eps(),
            self.prevent_cooling ==> final(site).species.temperature.v() >= old(site).species.temperature.v(),
            self.prevent_cooling && old(site).species.ionized_hydrogen_fraction.v() <= 1real - eps() ==> final(site).species.ionized_hydrogen_fraction.v() >= old(site).species.ionized_hydrogen_fraction.v(),
            // unless the solver gave up (and asks for a tenth of the timestep), steps from where the site was lead to where it is
            ({
                let p = Par { density: old(site).density, volume: volume, length: length, rate: rate, scale_factor: self.scale_factor, floor: if self.prevent_cooling { Some((old(site).species.temperature, old(site).species.ionized_hydrogen_fraction)) } else { None } };
                let (s, e) = (St { t: old(site).species.temperature.v(), x: old(site).species.ionized_hydrogen_fraction.v() }, St { t: final(site).species.temperature.v(), x: final(site).species.ionized_hydrogen_fraction.v() });
                covered(p, self.timestep_safety_factor.v(), clamped(p, s), timestep.v(), e, r.time.v()) || r.time.v() == timestep.v() / 10real
            }),
    //@ end
}
}
fn main() {}
