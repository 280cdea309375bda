pub mod vx {
    use super::*;
    use crate::chemistry::Photons;
    use vxcore::*;
    const EPS: f64 = 1e-10;

    #[derive(Clone, Copy, Debug)]
    struct Gas { t: f64, x: f64, n: f64, rate: f64, size: f64, a: f64 }
    impl Gas {
        fn solver(&self) -> Solver {
            Solver {
                ionized_hydrogen_fraction: Dimensionless::dimensionless(self.x), temperature: Temperature::kelvins(self.t), density: PROTON_MASS * NumberDensity::new_unchecked(self.n * 1e6),
                volume: Length::meters(self.size).cubed(), length: Length::meters(self.size), rate: PhotonRate::photons_per_second(self.rate), scale_factor: Dimensionless::dimensionless(self.a), floor: None,
            }
        }
    }
    fn physical(s: &Solver) -> (f64, f64) { (s.temperature.in_kelvins(), s.ionized_hydrogen_fraction.value()) }
    fn some_gas(g: &mut Rng) -> Gas {
        let size = 10f64.powf(g.float(16.0, 21.0));
        let n = 10f64.powf(g.float(-7.0, 3.0));
        let x = match g.below(6) { 0 => 0.0, 1 => 1.0, 2 => EPS, 3 => 1.0 - 10f64.powf(g.float(-12.0, -1.0)), 4 => 10f64.powf(g.float(-12.0, 0.0)), _ => g.unit() };
        // up to what ionizes the cell within some thousand years
        let atoms = n * 1e6 * size.powi(3);
        let rate = if g.below(4) == 0 { 0.0 } else { atoms / 3e7 * 10f64.powf(g.float(-9.0, -2.0)) };
        Gas { t: 10f64.powf(g.float(1.0, 7.0)), x, n, rate, size, a: g.float(0.05, 1.0) }
    }

    /// each clause for the rates at this state
    fn rates(gas: Gas) {
        let inp = || format!("{gas:?}");
        let s = gas.solver();
        for (name, v) in [
            ("recombination", s.case_b_recombination_rate().value_unchecked()), ("recombination cooling", s.case_b_recombination_cooling_rate().value_unchecked()), ("collisional ionization", s.collisional_ionization_rate().value_unchecked()),
            ("collisional ionization cooling", s.collisional_ionization_cooling_rate().value_unchecked()), ("collisional excitation cooling", s.collisional_excitation_cooling_rate().value_unchecked()),
            ("bremsstrahlung", s.bremsstrahlung_cooling_rate().value_unchecked()),
        ] {
            check("rate coefficients are finite and not negative", v.is_finite() && v >= 0.0, inp, || format!("{name}: {v}"));
        }
        let dt = Time::megayears(1e-3);
        let newly = s.num_newly_ionized_hydrogen_atoms(dt).value();
        let photons = (s.rate * dt).value();
        check("no more atoms are ionized than photons arrive", newly >= 0.0 && newly <= photons, inp, || format!("{newly} of {photons}"));
        let heat = (s.photoheating_rate(dt) * s.volume * dt / (PHOTON_AVERAGE_ENERGY - RYDBERG_CONSTANT)).value();
        check("the energy put into the gas is what the absorbed photons have beyond the ionization energy", close(heat, newly, newly, 1e-9), inp, || format!("the energy of {heat} photons, {newly} absorbed"));
        if gas.x < 1.0 - 1e-9 {
            let ionized = (s.photoionization_rate(dt) * dt * s.neutral_hydrogen_number_density() * s.volume).value();
            check("the photoionization rate is that of the absorbed photons", close(ionized, newly, newly, 1e-9), inp, || format!("{ionized}, {newly} absorbed"));
        }
        let total = s.ionized_hydrogen_number_density() + s.neutral_hydrogen_number_density();
        check("hydrogen is either ionized or neutral", close((total * PROTON_MASS).value_unchecked(), s.density.value_unchecked(), s.density.value_unchecked(), 1e-9) && s.electron_number_density() == s.ionized_hydrogen_number_density(), inp, || format!("{total:?}"));
        // derivatives: central differences, compared where they are accurate
        let der = |name: &str, f: &dyn Fn(&Solver) -> f64, d: f64| {
            let at = |h: f64| { let mut s = gas.solver(); s.temperature = Temperature::kelvins(gas.t * (1.0 + h)); f(&s) };
            let diff = |h: f64| (at(h) - at(-h)) / (2.0 * h * gas.t);
            let h = 1e-3 * (gas.t / 1e5).min(1.0); let (a, b) = (diff(2.0 * h), diff(h));
            let best = (4.0 * b - a) / 3.0;
            let scale = best.abs().max(at(0.0).abs() / gas.t * 1e-3);
            if !best.is_finite() || scale < 1e-280 || gas.t < 300.0 { return }
            check("the derivatives of the rates are their derivatives", close(d, best, scale, 1e-4), inp, || format!("{name}: {d}, by differences {best}"));
        };
        der("recombination", &|s| s.case_b_recombination_rate().value_unchecked(), s.case_b_recombination_rate_derivative().value_unchecked());
        der("recombination cooling", &|s| s.case_b_recombination_cooling_rate().value_unchecked(), s.case_b_recombination_cooling_rate_derivative().value_unchecked());
        der("collisional ionization", &|s| s.collisional_ionization_rate().value_unchecked(), s.collisional_ionization_rate_derivative().value_unchecked());
        der("collisional ionization cooling", &|s| s.collisional_ionization_cooling_rate().value_unchecked(), s.collisional_ionization_cooling_rate_derivative().value_unchecked());
        der("collisional excitation cooling", &|s| s.collisional_excitation_cooling_rate().value_unchecked(), s.collisional_excitation_cooling_rate_derivative().value_unchecked());
        der("bremsstrahlung", &|s| s.bremsstrahlung_cooling_rate().value_unchecked(), s.bremsstrahlung_cooling_rate_derivative().value_unchecked());
        der("compton", &|s| s.compton_cooling_rate().value_unchecked(), s.compton_cooling_rate_derivative().value_unchecked());
        der("all cooling", &|s| s.cooling_rate().value_unchecked(), s.cooling_rate_derivative().value_unchecked());
    }

    fn site(gas: Gas) -> Site<HydrogenOnly> {
        let s = gas.solver();
        Site::new(&(&crate::sweep::DirectionsSpecification::Num(1)).into(), HydrogenOnlySpecies::new(s.ionized_hydrogen_fraction, s.temperature), s.density, PhotonRate::zero())
    }

    fn steps(g: &mut Rng) {
        let gas = some_gas(g);
        let prevent = g.below(3) == 0;
        let safety = *g.pick(&[0.01, 0.1, 0.3]);
        let c = HydrogenOnly { rate_threshold: PhotonRate::zero(), scale_factor: Dimensionless::dimensionless(gas.a), timestep_safety_factor: Dimensionless::dimensionless(safety), prevent_cooling: prevent };
        let dt = Time::years(10f64.powf(g.float(-1.0, 3.5)));
        let inp = || format!("{gas:?}, timestep {} yr, safety factor {safety}, prevent_cooling {prevent}", dt.in_years());
        case(gas.rate > 0.0, inp);
        let s = gas.solver();
        let mut site = site(gas);
        let mut before = (gas.t, gas.x);
        for _ in 0..2 {
            let scale = guarded("the chemistry can be updated", inp, || c.update_abundances(&mut site, s.rate, dt, s.volume, s.length));
            let (t, x) = (site.species.temperature.in_kelvins(), site.species.ionized_hydrogen_fraction.value());
            check("the temperature is positive and finite", t > 0.0 && t.is_finite(), inp, || format!("T = {t}"));
            check("the ionized fraction stays within its bounds", x >= EPS && x <= 1.0 - EPS, inp, || format!("x = {x}"));
            check("the timescale of change is positive", scale.time > Time::zero(), inp, || format!("{:?}", scale.time));
            check("the timescale is recorded with the species", site.species.timestep == scale.time, inp, || format!("{:?}", site.species.timestep));
            check("with prevent_cooling neither temperature nor ionized fraction go down", !prevent || (t >= before.0 && x >= before.1.clamp(EPS, 1.0 - EPS)), inp, || format!("from {before:?} to {:?}", (t, x)));
            before = (t, x);
        }
    }

    /// the same time in one step and in many
    fn coverage(g: &mut Rng) {
        let mut gas = some_gas(g);
        gas.x = g.float(0.2, 0.8);
        gas.t = 10f64.powf(g.float(3.5, 4.5));
        // radiation off: gas that cools and recombines; with radiation the integrator (of first order, and
        // implicit) can be far off the solution, which is not the subject here
        let with = gas.rate;
        gas.rate = 0.0;
        let safety = Dimensionless::dimensionless(0.01);
        let mut s = gas.solver();
        // some five e-foldings of whatever changes fastest
        let tiny = Time::years(1e-6);
        let dx = (s.ionized_fraction_change(tiny) / gas.x).value().abs();
        let dtemp = (s.temperature_change(tiny) / s.temperature).value().abs();
        let dt = (tiny * (5.0 * g.unit() / dx.max(dtemp).max(1e-30))).min(Time::megayears(1e4));
        let inp = || format!("{gas:?}, timestep {} yr", dt.in_years());
        case(true, inp);
        s.perform_timestep(dt, safety);
        let mut r = gas.solver();
        for _ in 0..256 { r.perform_timestep(dt / 256.0, safety); }
        let ((t, x), (rt, rx)) = (physical(&s), physical(&r));
        check("steps together cover the time that was asked for", close(t, rt, rt, 0.1) && close(x, rx, rx, 0.1), inp, || format!("T = {t}, x = {x}; over 256 parts of the time T = {rt}, x = {rx}"));
        // to first order in time, what changes is ionizations minus recombinations and heating minus cooling
        gas.rate = with;
        let inp = || format!("{gas:?}");
        let mut s = gas.solver();
        let dx = (s.ionized_fraction_change(tiny) / gas.x).value().abs();
        let dtemp = (s.temperature_change(tiny) / s.temperature).value().abs();
        let short = tiny * (1e-5 / dx.max(dtemp).max(1e-20));
        let got = (s.ionized_fraction_change(short) / short).value_unchecked();
        let ne = s.electron_number_density();
        let (up, down) = (((s.collisional_ionization_rate() * ne + s.photoionization_rate(short)) * (1.0 - s.ionized_hydrogen_fraction)).value_unchecked(), (s.case_b_recombination_rate() * ne * s.ionized_hydrogen_fraction).value_unchecked());
        check("the ionized fraction changes by ionizations minus recombinations", close(got, up - down, up + down, 1e-2), inp, || format!("{got} instead of {up} - {down}"));
        let got = (s.temperature_change(short) / short).value_unchecked();
        let factor = ((GAMMA - 1.0) * PROTON_MASS / (s.density * BOLTZMANN_CONSTANT) / (1.0 + s.ionized_hydrogen_fraction)).value_unchecked();
        let (up, down) = (s.photoheating_rate(short).value_unchecked() * factor, s.cooling_rate().value_unchecked() * factor);
        check("the temperature changes by heating minus cooling", close(got, up - down, up.abs() + down.abs(), 1e-2), inp, || format!("{got} instead of {up} - {down}"));
    }

    fn change(g: &mut Rng) {
        let r = |g: &mut Rng| match g.below(4) { 0 => 0.0, 1 => 10f64.powf(g.float(-300.0, 300.0)), _ => 10f64.powf(g.float(40.0, 50.0)) };
        let (a, b, th) = (r(g), r(g), r(g));
        let inp = || format!("rates {a} and {b}, threshold {th}");
        case(a != b, inp);
        let (p, q) = (PhotonRate::photons_per_second(a), PhotonRate::photons_per_second(b));
        let c = p.relative_change_to(&q).value();
        check("a relative change of rates is a number, not negative and bounded", c >= 0.0 && c.is_finite(), inp, || format!("{c}"));
        check("a relative change of rates is that", if a > 0.0 && ((a - b) / a).abs() < 1e15 { close(c, ((a - b) / a).abs(), c, 1e-12) } else { c > 0.0 }, inp, || format!("{c}"));
        check("a rate is insignificant exactly if it is below the threshold", p.below_threshold(PhotonRate::photons_per_second(th)) == (a < th), inp, || "".into());
        let mut n = PhotonRate::photons_per_second(a - b);
        n.make_positive();
        check("a rate made positive is not negative", n.in_photons_per_second() == (a - b).max(0.0), inp, || format!("{n:?}"));
        let t = |x: f64| Timescale::temperature(Time::seconds(x));
        check("the shorter of two timescales is the shorter", t(a).min(t(b)).time.in_seconds() == a.min(b), inp, || "".into());
    }

    pub fn run() {
        quiet();
        let mut g = Rng::new(seed());
        let k = if thorough() { 20 } else { 1 };
        for _ in 0..4000 * k { rates(some_gas(&mut g)) }
        for _ in 0..1500 * k { change(&mut g) }
        for _ in 0..1500 * k { steps(&mut g) }
        for _ in 0..150 * k { coverage(&mut g) }
        done();
    }
}
