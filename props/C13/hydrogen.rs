// ---------------------------------------------------------------------------------- absorption in hydrogen
pub uninterp spec fn expf(x: real) -> real;
/// assumed of the exponential: positive, and at most one below zero
pub broadcast axiom fn axiom_exp(x: real) ensures #[trigger] expf(x) > 0real, x <= 0real ==> expf(x) <= 1real;
impl R { #[verifier::external_body] pub fn exp(self) -> (x: R) ensures x.v() == expf(self.v()) { unimplemented!() } }
pub type PhotonRate = R;
pub uninterp spec fn m_p() -> real;
pub uninterp spec fn cross_section() -> real;
/// assumed of the constants: the mass of a proton and the cross section are positive
pub broadcast axiom fn axiom_constants() ensures #![trigger m_p()] #![trigger cross_section()] m_p() > 0real, cross_section() > 0real;
#[verifier::external_body]
fn vx_proton_mass() -> (x: R) ensures x.v() == m_p() { unimplemented!() }
#[verifier::external_body]
fn vx_cross_section() -> (x: R) ensures x.v() == cross_section() { unimplemented!() }
pub struct HydrogenOnly { pub rate_threshold: R }
/// the number of absorbers a photon meets on its way through the cell
spec fn depth(cell: Cell, site: Site) -> real { (site.density.v() / m_p()) * (1real - site.species.ionized_hydrogen_fraction.v()) * cross_section() * cell.size.v() }
proof fn lemma_depth(a: real, m: real, f: real, s: real, l: real)
    requires a >= 0real, m > 0real, f <= 1real, s > 0real, l >= 0real,
    ensures a / m * (1real - f) * s * l >= 0real,
{
    assert(a / m >= 0real) by (nonlinear_arith) requires a >= 0real, m > 0real;
    let b = a / m;
    let c = b * (1real - f);
    assert(c >= 0real) by (nonlinear_arith) requires c == b * (1real - f), b >= 0real, f <= 1real;
    let d = c * s;
    assert(d >= 0real) by (nonlinear_arith) requires d == c * s, c >= 0real, s > 0real;
    assert(d * l >= 0real) by (nonlinear_arith) requires d >= 0real, l >= 0real;
}
proof fn lemma_neg(a: real, b: real, c: real) ensures (-a) * b * c == -(a * b * c) { assert((-a) * b * c == -(a * b * c)) by (nonlinear_arith); }
proof fn lemma_scale(x: real, f: real) requires x >= 0real, 0real < f <= 1real ensures 0real <= x * f <= x { assert(0real <= x * f <= x) by (nonlinear_arith) requires x >= 0real, 0real < f <= 1real; }
impl HydrogenOnly {
    //@ extract src/chemistry/hydrogen_only/mod.rs :: impl Chemistry for HydrogenOnly :: fn get_outgoing_rate
    //@ rewrite * `Self::Photons` => `R`
    //@ rewrite * `Site<Self>` => `Site`
    //@ rewrite * `PROTON_MASS` => `vx_proton_mass()`
    //@ rewrite * `NUMBER_WEIGHTED_AVERAGE_CROSS_SECTION` => `vx_cross_section()`
    //@ rewrite * `1.0` => `R::one()`
    //@ rewrite * `incoming_rate < self.rate_threshold` => `incoming_rate.lt(&self.rate_threshold)`
    //@ ret r
    //@ spec
        requires site.density.v() >= 0real, site.species.ionized_hydrogen_fraction.v() <= 1real, cell.size.v() >= 0real, incoming_rate.v() >= 0real,
        ensures
            // photons are absorbed along the cell, or all of them where they are too few to matter; none are made
            r.v() == (if incoming_rate.v() < self.rate_threshold.v() { 0real } else { incoming_rate.v() * expf(-depth(*cell, *site)) }),
            0real <= r.v() <= incoming_rate.v(),
    //@ entry
        broadcast use {axiom_exp, axiom_constants};
        proof {
            let nd = (site.density.v() / m_p()) * (1real - site.species.ionized_hydrogen_fraction.v());
            lemma_depth(site.density.v(), m_p(), site.species.ionized_hydrogen_fraction.v(), cross_section(), cell.size.v());
            lemma_neg(nd, cross_section(), cell.size.v());
            lemma_scale(incoming_rate.v(), expf(-depth(*cell, *site)));
        }
    //@ end
}
