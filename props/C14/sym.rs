// Contract of the rate coefficients: any temperature, density, ionized fraction and scale factor.
pub mod vx {
    use super::*;
    use crate::chemistry::Photons;
    use symx::*;

    fn solver(t: R) -> Solver {
        let v = |n: &str| { let x = R::var(n); assume(x > R::int(0)); x };
        let x = R::var("x");
        assume(x >= R::int(0));
        assume(x < R::int(1));
        let rate = R::var("rate");
        assume(rate >= R::int(0));
        Solver {
            ionized_hydrogen_fraction: Dimensionless::new_unchecked(x), temperature: Temperature::new_unchecked(t), density: Density::new_unchecked(v("density")), volume: Volume::new_unchecked(v("volume")),
            length: Length::new_unchecked(v("length")), rate: PhotonRate::new_unchecked(rate), scale_factor: Dimensionless::new_unchecked(v("a")), floor: None,
        }
    }
    fn temperature() -> R { let t = R::var("t"); assume(t > R::int(0)); t }

    pub fn run() {
        explore("rates", 1000, || {
            let s = solver(temperature());
            for (_, v) in [
                ("recombination", s.case_b_recombination_rate().value_unchecked()), ("recombination cooling", s.case_b_recombination_cooling_rate().value_unchecked()), ("collisional ionization", s.collisional_ionization_rate().value_unchecked()),
                ("collisional ionization cooling", s.collisional_ionization_cooling_rate().value_unchecked()), ("collisional excitation cooling", s.collisional_excitation_cooling_rate().value_unchecked()), ("bremsstrahlung", s.bremsstrahlung_cooling_rate().value_unchecked()),
            ] { ensure_le("rate coefficients are not negative", R::int(0), v) }
        });
        let derivative = |name: &'static str, f: fn(&Solver) -> (R, R)| explore(name, 200, move || {
            let t = temperature();
            let s = solver(t);
            let (rate, d) = f(&s);
            ensure_eq("the derivatives of the rates are their derivatives", rate.derivative(t), d);
        });
        derivative("recombination", |s| (s.case_b_recombination_rate().value_unchecked(), s.case_b_recombination_rate_derivative().value_unchecked()));
        derivative("recombination cooling", |s| (s.case_b_recombination_cooling_rate().value_unchecked(), s.case_b_recombination_cooling_rate_derivative().value_unchecked()));
        derivative("collisional ionization", |s| (s.collisional_ionization_rate().value_unchecked(), s.collisional_ionization_rate_derivative().value_unchecked()));
        derivative("collisional ionization cooling", |s| (s.collisional_ionization_cooling_rate().value_unchecked(), s.collisional_ionization_cooling_rate_derivative().value_unchecked()));
        derivative("collisional excitation cooling", |s| (s.collisional_excitation_cooling_rate().value_unchecked(), s.collisional_excitation_cooling_rate_derivative().value_unchecked()));
        derivative("bremsstrahlung", |s| (s.bremsstrahlung_cooling_rate().value_unchecked(), s.bremsstrahlung_cooling_rate_derivative().value_unchecked()));
        derivative("compton", |s| (s.compton_cooling_rate().value_unchecked(), s.compton_cooling_rate_derivative().value_unchecked()));
        derivative("all cooling", |s| (s.cooling_rate().value_unchecked(), s.cooling_rate_derivative().value_unchecked()));
        explore("absorption", 1000, || {
            let s = solver(temperature());
            let dt = R::var("dt");
            assume(dt > R::int(0));
            let dt = Time::new_unchecked(dt);
            let newly = s.num_newly_ionized_hydrogen_atoms(dt).value();
            ensure_le("no more atoms are ionized than photons arrive", R::int(0), newly);
            ensure_le("no more atoms are ionized than photons arrive", newly, (s.rate * dt).value());
            ensure_eq("the energy put into the gas is what the absorbed photons have beyond the ionization energy", (s.photoheating_rate(dt) * s.volume * dt).value_unchecked(), newly * (PHOTON_AVERAGE_ENERGY - RYDBERG_CONSTANT).value_unchecked());
            ensure_lt("photons have more than the ionization energy", R::int(0), (PHOTON_AVERAGE_ENERGY - RYDBERG_CONSTANT).value_unchecked());
            ensure_eq("the photoionization rate is that of the absorbed photons", (s.photoionization_rate(dt) * dt * s.neutral_hydrogen_number_density() * s.volume).value_unchecked(), newly);
            ensure_eq("hydrogen is either ionized or neutral", ((s.ionized_hydrogen_number_density() + s.neutral_hydrogen_number_density()) * PROTON_MASS).value_unchecked(), s.density.value_unchecked());
            ensure_eq("there is an electron per ionized atom", s.electron_number_density().value_unchecked(), s.ionized_hydrogen_number_density().value_unchecked());
            ensure_eq("two particles per ionized atom, one per neutral one", s.mu().value() * (s.hydrogen_number_density() + s.electron_number_density()).value_unchecked(), s.hydrogen_number_density().value_unchecked());
        });
        explore("relative change", 1000, || {
            let (a, b, th) = (R::var("a"), R::var("b"), R::var("threshold"));
            assume(a >= R::int(0));
            assume(b >= R::int(0));
            assume(th >= R::int(0));
            let (p, q) = (PhotonRate::new_unchecked(a), PhotonRate::new_unchecked(b));
            let c = p.relative_change_to(&q).value();
            ensure("a relative change of rates is a number", c.is_finite());
            if c.is_finite() { ensure_le("a relative change of rates is not negative", R::int(0), c) }
            ensure("a rate is insignificant exactly if it is below the threshold", p.below_threshold(PhotonRate::new_unchecked(th)) == (a < th));
            let mut n = p - q;
            n.make_positive();
            ensure_le("a rate made positive is not negative", R::int(0), n.value_unchecked());
            ensure("a rate made positive is unchanged if it was", n.value_unchecked() == a - b || a < b);
            let (s, t) = (Timescale::temperature(Time::new_unchecked(a)), Timescale::photon_rate(Time::new_unchecked(b)));
            let m = s.min(t).time.value_unchecked();
            ensure("the shorter of two timescales is the shorter", m <= a && m <= b && (m == a || m == b));
        });
        report();
    }
}
