pub mod vx {
    use super::*;
    use crate::cosmology::*;
    use crate::units::*;
    use symx::*;

    fn positive(n: &str) -> R { let x = R::var(n); assume(x > R::int(0)); x }
    fn cosmology() -> (R, R, Cosmology) { let (a, h) = (positive("a"), positive("h")); (a, h, Cosmology::Cosmological { a, h, params: None }) }
    fn v<const D: Dimension>(q: Quantity<R, D>) -> R { q.value_unchecked() }

    pub fn run() {
        explore("to physical quantities", 100, || {
            let (a, h, c) = cosmology();
            let x = R::var("x");
            ensure_eq("comoving lengths are multiplied by the scale factor", v(ComovingLength::new_unchecked(x).make_non_cosmological(&c)), x * a);
            ensure_eq("comoving lengths over h are multiplied by the scale factor and divided by h", v(ComovingLengthTimesH::new_unchecked(x).make_non_cosmological(&c)), x * a / h);
            ensure_eq("comoving lengths over h are multiplied by the scale factor and divided by h", v(ComovingLength::comoving_megaparsec(x).make_non_cosmological(&c)) / h, v(ComovingLengthTimesH::weird_cosmological_notation_megaparsec(x).make_non_cosmological(&c)));
            ensure_eq("what is not cosmological stays as it is", v(Length::new_unchecked(x).make_non_cosmological(&c)), x);
            let cube = ComovingLength::new_unchecked(x) * ComovingLength::new_unchecked(x) * ComovingLength::new_unchecked(x);
            ensure_eq("conversion and multiplication commute", v(cube.make_non_cosmological(&c)), x * a * x * a * x * a);
            ensure_eq("a redshift is that of its scale factor", (c.redshift().value() + R::int(1)) * c.scale_factor().value(), R::int(1));
            ensure_eq("the scale factor is the one given", c.scale_factor().value(), a);
            ensure_eq("h is the one given", c.little_h().value(), h);
            ensure_eq("without cosmology it is today", Cosmology::NonCosmological.redshift().value(), R::int(0));
        });
        explore("any dimension", 3000, || {
            let (a, h, c) = cosmology();
            for i in -4..=4 {
                for j in -4..=4 {
                    let d = Dimension { length: 1, time: 2, mass: 3, temperature: 4, h: i, a: j };
                    let f = c.get_factor(&d);
                    let power = |x: R, n: i32| (0..n.abs()).fold(R::int(1), |p, _| if n > 0 { p * x } else { p / x });
                    ensure_eq("a quantity is divided by its powers of the scale factor and of h", f * power(a, j) * power(h, i), R::int(1));
                    let p = d.non_cosmological();
                    ensure("the other dimensions are kept", p.length == 1 && p.time == 2 && p.mass == 3 && p.temperature == 4 && p.h == 0 && p.a == 0);
                }
            }
        });
        explore("the box", 100, || {
            let (a, h, c) = cosmology();
            let x = positive("x");
            let side = |b: SimulationBox| b.side_lengths();
            let s = side(get_simulation_box(&SimulationBoxParameters::Comoving(ComovingLengthTimesH::new_unchecked(x)), &c));
            for l in [s.x(), s.y(), s.z()] { ensure_eq("a comoving box has the physical size", v(l), x * a / h) }
            let s = side(get_simulation_box(&SimulationBoxParameters::Normal(Length::new_unchecked(x)), &c));
            for l in [s.x(), s.y(), s.z()] { ensure_eq("a physical box has the size given", v(l), x) }
        });
        explore("temperature and energy", 100, || {
            let (t, mu, x, rho) = (positive("t"), positive("mu"), R::var("x"), positive("density"));
            assume(x >= R::int(0));
            let tq = Temperature::new_unchecked(t);
            ensure_eq("temperature and internal energy are converted back and forth", v(tq.to_internal_energy(Dimensionless::new_unchecked(mu)).to_temperature(Dimensionless::new_unchecked(mu))), t);
            ensure_eq("an internal energy is that of the particles there are", v(tq.to_internal_energy(Dimensionless::new_unchecked(mu))) * mu * v(PROTON_MASS) * R::int(2), R::int(3) * v(BOLTZMANN_CONSTANT) * t);
            let e = EnergyDensity::from_temperature_hydrogen_only(tq, Dimensionless::new_unchecked(x), Density::new_unchecked(rho));
            ensure_eq("temperature and energy density are converted back and forth", v(Temperature::from_internal_energy_density_hydrogen_only(e, Dimensionless::new_unchecked(x), Density::new_unchecked(rho))), t);
            ensure_eq("an energy density is that of the particles there are", v(e) * v(PROTON_MASS) * R::int(2), R::int(3) * v(BOLTZMANN_CONSTANT) * t * rho * (R::int(1) + x));
        });
        explore("time", 100, || {
            let (l, o, h) = (positive("omega_lambda"), positive("omega_0"), positive("h"));
            assume((l + o - R::int(1)).abs() <= R::lit("0.01"));
            let (a0, a1, a2) = (positive("a0"), positive("a1"), positive("a2"));
            let p = CosmologyParams::vx_new(o, l);
            let t = |x: R, y: R| v(p.time_difference_between_scalefactors(Dimensionless::new_unchecked(x), Dimensionless::new_unchecked(y), Dimensionless::new_unchecked(h)));
            ensure_eq("no time passes between equal scale factors", t(a0, a0), R::int(0));
            ensure_eq("times add up", t(a0, a1) + t(a1, a2), t(a0, a2));
            ensure_eq("back is minus forth", t(a1, a0), R::int(0) - t(a0, a1));
            let c = Cosmology::Cosmological { a: a2, h, params: Some(p) };
            ensure_eq("a cosmology uses its parameters", v(c.time_difference_between_scalefactors(Dimensionless::new_unchecked(a0), Dimensionless::new_unchecked(a1))), t(a0, a1));
            // the Friedmann equation: da/dt = a H(a), H^2 = H_0^2 (omega_0 a^-3 + omega_lambda), H_0 = 100 h km/s/Mpc (here as 1 / s)
            let d = t(a0, a1).derivative(a1);
            let hubble = R::lit("3.2407789e-18");
            let one = (d * h * hubble).powi(2) * (o / a1 + l * a1 * a1);
            // the same for all scale factors, and the value of today's Hubble parameter
            ensure_le("time passes as the Friedmann equation has it", one, R::lit("1.001"));
            ensure_le("time passes as the Friedmann equation has it", R::lit("0.999"), one);
            let e = t(a0, a1).derivative(a0);
            ensure_eq("time passes as the Friedmann equation has it", d.powi(2) * (o / a1 + l * a1 * a1), e.powi(2) * (o / a0 + l * a0 * a0));
        });
        report();
    }
}
