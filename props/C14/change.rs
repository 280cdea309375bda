// The rates by their contracts (unknown functions of the temperature, for the cooling of the whole state), the changes by their bodies.
impl Solver {
    fn vx_rate(&self, n: &str) -> symx::R { let r = symx::R::fun(n, &[self.temperature.value_unchecked()]); symx::assume(r >= symx::R::int(0)); r }
    fn vx_of_state(&self, n: &str) -> symx::R { symx::R::fun(n, &[self.temperature.value_unchecked(), self.ionized_hydrogen_fraction.value(), self.density.value_unchecked(), self.scale_factor.value()]) }
    pub fn case_b_recombination_rate(&self) -> VolumeRate { VolumeRate::new_unchecked(self.vx_rate("alpha")) }
    fn case_b_recombination_rate_derivative(&self) -> Quotient<VolumeRate, Temperature> { Quotient::<VolumeRate, Temperature>::new_unchecked(symx::R::fun("dalpha", &[self.temperature.value_unchecked()])) }
    pub fn collisional_ionization_rate(&self) -> VolumeRate { VolumeRate::new_unchecked(self.vx_rate("beta")) }
    fn collisional_ionization_rate_derivative(&self) -> Quotient<VolumeRate, Temperature> { Quotient::<VolumeRate, Temperature>::new_unchecked(symx::R::fun("dbeta", &[self.temperature.value_unchecked()])) }
    pub fn cooling_rate(&self) -> HeatingRate { HeatingRate::new_unchecked(self.vx_of_state("cooling")) }
    fn cooling_rate_derivative(&self) -> Quotient<HeatingRate, Temperature> { Quotient::<HeatingRate, Temperature>::new_unchecked(self.vx_of_state("dcooling")) }
}
pub mod vx {
    use super::*;
    use symx::*;

    pub fn run() {
        let cell = || {
            let v = |n: &str| { let x = R::var(n); assume(x > R::int(0)); x };
            let (x, rate) = (R::var("x"), R::var("rate"));
            assume(x >= R::int(0));
            assume(x < R::int(1));
            assume(rate >= R::int(0));
            Solver {
                ionized_hydrogen_fraction: Dimensionless::new_unchecked(x), temperature: Temperature::new_unchecked(v("t")), density: Density::new_unchecked(v("density")), volume: Volume::new_unchecked(v("volume")),
                length: Length::new_unchecked(v("length")), rate: PhotonRate::new_unchecked(rate), scale_factor: Dimensionless::new_unchecked(v("a")), floor: None,
            }
        };
        let step = || { let dt = R::var("dt"); assume(dt > R::int(0)); dt };
        // the change over dt is c(dt); that c(dt) / dt tends to the net rate as dt tends to zero is stated for c of the form dt n(dt) / d(dt) by
        // taking the limit in the numerator and the denominator of c(dt) / dt - net
        explore("ionized fraction", 1000, move || {
            let (mut s, dt) = (cell(), step());
            let tm = Time::new_unchecked(dt);
            let ne = s.electron_number_density();
            let up = (s.collisional_ionization_rate() * ne + s.photoionization_rate(tm)).value_unchecked() * (R::int(1) - s.ionized_hydrogen_fraction.value());
            let down = (s.case_b_recombination_rate() * ne).value_unchecked() * s.ionized_hydrogen_fraction.value();
            let change = s.ionized_fraction_change(tm).value();
            if change.is_finite() { ensure_eq("the ionized fraction changes by ionizations minus recombinations, to first order in time", (change / dt).at_zero(dt), (up - down).at_zero(dt)) }
        });
        explore("temperature", 1000, move || {
            let (mut s, dt) = (cell(), step());
            let tm = Time::new_unchecked(dt);
            let factor = ((GAMMA - R::int(1)) * PROTON_MASS / (s.density * BOLTZMANN_CONSTANT)).value_unchecked() * s.mu().value();
            let net = (s.photoheating_rate(tm) - s.cooling_rate()).value_unchecked() * factor;
            let change = s.temperature_change(tm).value_unchecked();
            if change.is_finite() { ensure_eq("the temperature changes by heating minus cooling, to first order in time", (change / dt).at_zero(dt), net.at_zero(dt)) }
        });
        report();
    }
}
