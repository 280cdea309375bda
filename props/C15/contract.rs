pub mod vx {
    use super::*;
    use crate::arepo::ArepoUnitReader;
    use crate::io::UnitReader;
    use crate::time_spec::TimeSpec;
    use crate::units::*;
    use bevy_ecs::prelude::ResMut;
    use vxcore::*;

    fn v<const D: Dimension>(q: Quantity<f64, D>) -> f64 { q.value_unchecked() }

    fn table() {
        let (m, s, kg, k) = (1.0, 1.0, 1.0, 1.0);
        let (pc, yr, ev) = (3.0857e16 * m, 3.15576e7 * s, 1.602176634e-19);
        for (name, got, want) in [
            ("percent", v(Dimensionless::percent(1.0)), 0.01), ("m", v(Length::meters(1.0)), m), ("cm", v(Length::centimeters(1.0)), 1e-2 * m), ("km", v(Length::kilometers(1.0)), 1e3 * m),
            ("pc", v(Length::parsec(1.0)), pc), ("kpc", v(Length::kiloparsec(1.0)), 1e3 * pc), ("Mpc", v(Length::megaparsec(1.0)), 1e6 * pc), ("Gpc", v(Length::gigaparsec(1.0)), 1e9 * pc),
            ("cpc", v(ComovingLength::comoving_parsec(1.0)), pc), ("ckpc", v(ComovingLength::comoving_kiloparsec(1.0)), 1e3 * pc), ("cMpc", v(ComovingLength::comoving_megaparsec(1.0)), 1e6 * pc), ("cGpc", v(ComovingLength::comoving_gigaparsec(1.0)), 1e9 * pc),
            ("cpc/h", v(ComovingLengthTimesH::weird_cosmological_notation_parsec(1.0)), pc), ("ckpc/h", v(ComovingLengthTimesH::weird_cosmological_notation_kiloparsec(1.0)), 1e3 * pc), ("cMpc/h", v(ComovingLengthTimesH::weird_cosmological_notation_megaparsec(1.0)), 1e6 * pc),
            ("s", v(Time::seconds(1.0)), s), ("ms", v(Time::milliseconds(1.0)), 1e-3 * s), ("us", v(Time::microseconds(1.0)), 1e-6 * s), ("ns", v(Time::nanoseconds(1.0)), 1e-9 * s),
            ("yr", v(Time::years(1.0)), yr), ("kyr", v(Time::kiloyears(1.0)), 1e3 * yr), ("Myr", v(Time::megayears(1.0)), 1e6 * yr), ("Gyr", v(Time::gigayears(1.0)), 1e9 * yr),
            ("kg", v(Mass::kilograms(1.0)), kg), ("g", v(Mass::grams(1.0)), 1e-3 * kg), ("Msol", v(Mass::solar(1.0)), 1.9885e30 * kg), ("m/s", v(Velocity::meters_per_second(1.0)), 1.0),
            ("J", v(Energy::joules(1.0)), 1.0), ("erg", v(Energy::ergs(1.0)), 1e-7), ("eV", v(Energy::electron_volts(1.0)), ev), ("K", v(Temperature::kelvins(1.0)), k),
            ("m^2", v(Area::square_meters(1.0)), 1.0), ("cm^2", v(Area::square_centimeters(1.0)), 1e-4), ("erg/s", v(EnergyPerTime::ergs_per_s(1.0)), 1e-7), ("m^3", v(Volume::cubic_meters(1.0)), 1.0), ("cm^3", v(Volume::cubic_centimeters(1.0)), 1e-6),
            ("g/cm^3", v(Density::grams_per_cubic_centimeters(1.0)), 1e3), ("1/s", v(Rate::per_second(1.0)), 1.0), ("photons/s", v(PhotonRate::photons_per_second(1.0)), 1.0),
            ("photons/s/m^3", v(PhotonRateDensity::photons_per_second_per_cubic_meter(1.0)), 1.0), ("photons/s/cm^3", v(PhotonRateDensity::photons_per_second_per_cubic_centimeter(1.0)), 1e6), ("photons/s/cm^2", v(PhotonFlux::photons_per_s_per_cm_squared(1.0)), 1e4),
            ("cross sections in cm^2", v(CrossSection::centimeters_squared(1.0)), 1e-4), ("cm^3/s", v(VolumeRate::centimeters_cubed_per_s(1.0)), 1e-6), ("erg cm^3/s", v(HeatingTerm::ergs_centimeters_cubed_per_s(1.0)), 1e-13),
            ("erg/cm^3/s", v(HeatingRate::ergs_per_centimeters_cubed_per_s(1.0)), 1e-1), ("1/cm^3", v(NumberDensity::per_centimeters_cubed(1.0)), 1e6),
        ] {
            case(true, || name.to_string());
            check("units have their values", close(got, want, want, 1e-3), || format!("1 {name}"), || format!("{got} in SI units, should be {want}"));
        }
        for (name, got, want) in [
            ("Boltzmann's constant", v(BOLTZMANN_CONSTANT), 1.380649e-23), ("the mass of a proton", v(PROTON_MASS), 1.67262192369e-27), ("the speed of light", v(SPEED_OF_LIGHT), 299792458.0), ("the adiabatic index", v(GAMMA), 5.0 / 3.0),
            ("the ionization energy of hydrogen", v(RYDBERG_CONSTANT), 13.605693 * ev),
        ] {
            case(true, || name.to_string());
            check("physical constants have their values", close(got, want, want, 1e-3), || name.to_string(), || format!("{got} in SI units, should be {want}"));
        }
        check("an average photon has more than the ionization energy", PHOTON_AVERAGE_ENERGY > RYDBERG_CONSTANT, || "".into(), || format!("{PHOTON_AVERAGE_ENERGY:?}"));
        check("cross sections are positive", v(NUMBER_WEIGHTED_AVERAGE_CROSS_SECTION) > 0.0 && v(ENERGY_WEIGHTED_AVERAGE_CROSS_SECTION) > 0.0, || "".into(), || "".into());
    }

    /// what a symbol such as "g/cm^3" says
    fn meaning(symbol: &str) -> Option<f64> {
        let (pc, yr, erg): (f64, f64, f64) = (3.0857e16, 3.15576e7, 1e-7);
        let atom = |a: &str| -> Option<f64> { Some(match a {
            "%" => 0.01, "m" | "s" | "kg" | "J" | "K" | "h" | "a" => 1.0, "cm" => 1e-2, "km" => 1e3, "pc" | "cpc" => pc, "kpc" | "ckpc" => 1e3 * pc, "Mpc" | "cMpc" => 1e6 * pc, "Gpc" | "cGpc" => 1e9 * pc,
            "ms" => 1e-3, "µs" => 1e-6, "ns" => 1e-9, "yr" => yr, "kyr" => 1e3 * yr, "Myr" => 1e6 * yr, "Gyr" => 1e9 * yr, "g" => 1e-3, "Msol" => 1.9885e30, "erg" | "ergs" => erg, "eV" => 1.602176634e-19, _ => return None,
        }) };
        let mut x: f64 = 1.0;
        for word in symbol.split_whitespace() {
            for (i, w) in word.split('/').enumerate() {
                let (a, e) = w.split_once('^').unwrap_or((w, "1"));
                x *= atom(a)?.powi(e.parse::<i32>().ok()? * if i == 0 { 1 } else { -1 });
            }
        }
        Some(x)
    }
    fn dims(d: Dimension) -> [i32; 6] { [d.length, d.time, d.mass, d.temperature, d.h, d.a] }
    fn symbols_and_dimensions() {
        for (name, symbol, factor, _) in crate::units::vx_unit_table::units() {
            if let (false, Some(want)) = (symbol.is_empty(), meaning(symbol)) {
                case(true, || symbol.to_string());
                check("the symbol of a unit is its own", close(factor, want, want, 1e-3), || format!("{name}, written {symbol}"), || format!("{factor} in SI units, {symbol} is {want}"));
            }
        }
        for (name, d, want) in [
            ("Length", Length::dimension(), [1, 0, 0, 0, 0, 0]), ("ComovingLength", ComovingLength::dimension(), [1, 0, 0, 0, 0, -1]), ("ComovingLengthTimesH", ComovingLengthTimesH::dimension(), [1, 0, 0, 0, 1, -1]), ("H", H::dimension(), [0, 0, 0, 0, 1, 0]), ("A", A::dimension(), [0, 0, 0, 0, 0, 1]),
            ("Time", Time::dimension(), [0, 1, 0, 0, 0, 0]), ("Mass", Mass::dimension(), [0, 0, 1, 0, 0, 0]), ("Temperature", Temperature::dimension(), [0, 0, 0, 1, 0, 0]), ("InverseTemperature", InverseTemperature::dimension(), [0, 0, 0, -1, 0, 0]), ("Velocity", Velocity::dimension(), [1, -1, 0, 0, 0, 0]),
            ("Energy", Energy::dimension(), [2, -2, 1, 0, 0, 0]), ("Area", Area::dimension(), [2, 0, 0, 0, 0, 0]), ("Force", Force::dimension(), [1, -2, 1, 0, 0, 0]), ("EnergyDensity", EnergyDensity::dimension(), [-1, -2, 1, 0, 0, 0]), ("EnergyPerMass", EnergyPerMass::dimension(), [2, -2, 0, 0, 0, 0]), ("EnergyPerTime", EnergyPerTime::dimension(), [2, -3, 1, 0, 0, 0]),
            ("Volume", Volume::dimension(), [3, 0, 0, 0, 0, 0]), ("Density", Density::dimension(), [-3, 0, 1, 0, 0, 0]), ("Rate", Rate::dimension(), [0, -1, 0, 0, 0, 0]), ("PhotonRate", PhotonRate::dimension(), [0, -1, 0, 0, 0, 0]), ("SourceRate", SourceRate::dimension(), [0, -1, 0, 0, 0, 0]), ("RateDensity", RateDensity::dimension(), [-3, -1, 0, 0, 0, 0]), ("PhotonRateDensity", PhotonRateDensity::dimension(), [-3, -1, 0, 0, 0, 0]),
            ("PhotonFlux", PhotonFlux::dimension(), [-2, -1, 0, 0, 0, 0]), ("CrossSection", CrossSection::dimension(), [2, 0, 0, 0, 0, 0]), ("VolumeRate", VolumeRate::dimension(), [3, -1, 0, 0, 0, 0]), ("HeatingTerm", HeatingTerm::dimension(), [5, -3, 1, 0, 0, 0]), ("HeatingRate", HeatingRate::dimension(), [-1, -3, 1, 0, 0, 0]), ("NumberDensity", NumberDensity::dimension(), [-3, 0, 0, 0, 0, 0]), ("Dimensionless", Dimensionless::dimension(), [0; 6]),
        ] {
            case(true, || name.to_string());
            check("quantities have their dimensions", dims(d) == want, || name.to_string(), || format!("{d:?}"));
        }
        let d = |length, time, mass, temperature, h, a| Dimension { length, time, mass, temperature, h, a }.base_conversion_factor();
        for (name, f, si) in [("length", d(1, 0, 0, 0, 0, 0), v(Length::meters(1.0))), ("time", d(0, 1, 0, 0, 0, 0), v(Time::seconds(1.0))), ("mass", d(0, 0, 1, 0, 0, 0), v(Mass::kilograms(1.0))), ("temperature", d(0, 0, 0, 1, 0, 0), v(Temperature::kelvins(1.0))), ("energy", d(2, -2, 1, 0, 0, 0), v(Energy::joules(1.0))), ("h", d(0, 0, 0, 0, 1, 0), 1.0), ("a", d(0, 0, 0, 0, 0, 1), 1.0)] {
            check("base units times their conversion factor are SI units", close(f * si, 1.0, 1.0, 1e-12), || name.to_string(), || format!("{f}"));
        }
    }

    fn round_trips(g: &mut Rng) {
        let x = 10f64.powf(g.float(-30.0, 30.0)) * if g.bool() { 1.0 } else { -1.0 };
        let inp = || format!("{x}");
        case(true, inp);
        for (name, y) in [
            ("percent", Dimensionless::percent(x).in_percent()), ("m", Length::meters(x).in_meters()), ("cm", Length::centimeters(x).in_centimeters()), ("kpc", Length::kiloparsec(x).in_kiloparsec()), ("Mpc", Length::megaparsec(x).in_megaparsec()),
            ("s", Time::seconds(x).in_seconds()), ("yr", Time::years(x).in_years()), ("Myr", Time::megayears(x).in_megayears()), ("g", Mass::grams(x).in_grams()), ("Msol", Mass::solar(x).in_solar()), ("erg", Energy::ergs(x).in_ergs()),
            ("K", Temperature::kelvins(x).in_kelvins()), ("g/cm^3", Density::grams_per_cubic_centimeters(x).in_grams_per_cubic_centimeters()), ("1/cm^3", NumberDensity::per_centimeters_cubed(x).in_per_centimeters_cubed()), ("cm^3/s", VolumeRate::centimeters_cubed_per_s(x).in_centimeters_cubed_per_s()),
        ] { check("a value in a unit is that value in that unit", close(x, y, x, 1e-12), inp, || format!("{y} {name}")) }
        let (t, mu, f) = (Temperature::kelvins(x.abs()), Dimensionless::dimensionless(g.float(0.5, 1.0)), Dimensionless::dimensionless(g.unit()));
        check("temperature and internal energy are converted back and forth", close(t.to_internal_energy(mu).to_temperature(mu).in_kelvins(), x.abs(), x, 1e-12), inp, || "".into());
        let rho = Density::grams_per_cubic_centimeters(1e-24);
        let e = EnergyDensity::from_temperature_hydrogen_only(t, f, rho);
        check("temperature and energy density are converted back and forth", close(Temperature::from_internal_energy_density_hydrogen_only(e, f, rho).in_kelvins(), x.abs(), x, 1e-12), inp, || "".into());
    }

    fn some_dimension(g: &mut Rng, k: i64) -> Dimension { let mut e = || g.range(-k, k + 1) as i32; Dimension { length: e(), time: e(), mass: e(), temperature: e(), h: e(), a: e() } }
    fn factors(g: &mut Rng) {
        let (a, h) = (10f64.powf(g.float(-2.0, 0.3)), g.float(0.5, 1.0));
        let (d, e) = (some_dimension(g, 6), some_dimension(g, 6));
        let inp = || format!("a = {a}, h = {h}, {d:?}, {e:?}");
        case(true, inp);
        let c = Cosmology::Cosmological { a, h, params: None };
        let f = |d: &Dimension| c.get_factor(d);
        let want = a.powf(-d.a as f64) * h.powf(-d.h as f64);
        check("a quantity is divided by its powers of the scale factor and of h", close(f(&d), want, want, 1e-9), inp, || format!("factor {} instead of {want}", f(&d)));
        check("factors of products are products of factors", close(f(&d.dimension_mul(e)), f(&d) * f(&e), f(&d) * f(&e), 1e-9), inp, || "".into());
        let n = d.non_cosmological();
        check("the other dimensions are kept", n == Dimension { h: 0, a: 0, ..d } && f(&n) == 1.0, inp, || format!("{n:?}"));
        check("base units are SI units", close(d.base_conversion_factor() * e.base_conversion_factor(), d.dimension_mul(e).base_conversion_factor(), 1.0, 1e-9), inp, || "".into());
        check("a redshift is that of its scale factor", close((c.redshift().value() + 1.0) * a, 1.0, 1.0, 1e-12) && c.scale_factor().value() == a && c.little_h().value() == h, inp, || format!("{:?}", c.redshift()));
        let w = MVec::new(g.float(-1.0, 1.0), g.float(-1.0, 1.0), g.float(-1.0, 1.0));
        let (s, p) = (VecLength::from_vector_and_scale(w, Length::meters(3.0)), crate::arepo::read_vec(&[w.x, w.y, w.z]));
        check("vectors keep their components", close(v(s.x()), 3.0 * w.x, 1.0, 1e-12) && close(v(s.y()), 3.0 * w.y, 1.0, 1e-12) && close(v(s.z()), 3.0 * w.z, 1.0, 1e-12) && p.0.value_unchecked() == w, inp, || format!("{w:?} became {s:?} and {:?}", p.0));
        let o = g.unit();
        let off = g.float(0.02, 2.0) * if g.bool() { 1.0 } else { -1.0 };
        check("universes that are not flat are refused", try_guarded(|| CosmologyParams::vx_new(o, 1.0 - o + off).time_difference_between_scalefactors(0.1.into(), 0.2.into(), 0.7.into())).is_err(), inp, || format!("omega_0 = {o}, omega_lambda = {}", 1.0 - o + off));
        let x = 10f64.powf(g.float(-3.0, 3.0));
        let got = ComovingLengthTimesH::weird_cosmological_notation_kiloparsec(x).make_non_cosmological(&c).in_kiloparsec();
        check("comoving lengths over h are multiplied by the scale factor and divided by h", close(got, x * a / h, got, 1e-12), inp, || format!("{x} ckpc/h are {got} kpc"));
        check("without cosmology nothing cosmological is converted", try_guarded(|| Cosmology::NonCosmological.get_factor(&Dimension { a: 1, ..n })).is_err(), inp, || "".into());
    }

    fn datasets(g: &mut Rng, k: usize) {
        let (a, h) = (10f64.powf(g.float(-2.0, 0.0)), g.float(0.5, 1.0));
        let (l, vel, m, ea, eh) = (g.range(-3, 4) as i32, g.range(-3, 4) as i32, g.range(-3, 4) as i32, *g.pick(&[0, 0, 1, -1, 2, -3]), *g.pick(&[0, 0, 1, -1, 2, -3]));
        let none = l == 0 && vel == 0 && m == 0 && ea == 0 && eh == 0;
        let cgs = if none && g.bool() { 0.0 } else { 10f64.powf(g.float(-30.0, 40.0)) };
        let cosmological = ea != 0 || eh != 0;
        let with = cosmological || g.bool();
        let inp = || format!("a = {a}, h = {h}, cosmology given: {with}, length {l}, velocity {vel}, mass {m}, a {ea}, h {eh}, to_cgs {cgs}");
        case(cosmological, inp);
        let file = hdf5::File::create(format!("/no/such/dir/c15-{k}")).unwrap();
        let set = file.new_dataset::<f64>().shape(1).create("x").unwrap();
        for (n, x) in [("length_scaling", l), ("velocity_scaling", vel), ("mass_scaling", m), ("a_scaling", ea), ("h_scaling", eh)] { set.new_attr::<i32>().shape(()).create(n).unwrap().write_scalar(&x).unwrap() }
        set.new_attr::<f64>().shape(()).create("to_cgs").unwrap().write_scalar(&cgs).unwrap();
        let r = ArepoUnitReader::new(if with { Cosmology::Cosmological { a, h, params: None } } else { Cosmology::NonCosmological });
        let got = guarded("the units of a dataset can be read", inp, || r.read_scale_factor(&set));
        let want = a.powf(ea as f64) * h.powf(eh as f64) * 10f64.powf(-2.0 * (l + vel) as f64 - 3.0 * m as f64) * if cgs == 0.0 { 1.0 } else { cgs };
        check("data are scaled to SI and to physical units", close(got, want, want, 1e-9), inp, || format!("factor {got} instead of {want}"));
        let d = r.read_dimension(&set);
        check("data have the dimension they were written with", d == Dimension { length: l + vel, time: -vel, mass: m, temperature: 0, h: 0, a: 0 }, inp, || format!("{d:?}"));
        if cosmological {
            let r = ArepoUnitReader::new(Cosmology::NonCosmological);
            check("cosmological data are not read without a cosmology", try_guarded(|| r.read_scale_factor(&set)).is_err() && try_guarded(|| r.read_dimension(&set)).is_err(), inp, || "".into());
        }
    }

    fn times(g: &mut Rng) {
        let o = g.float(0.05, 0.95);
        let p = CosmologyParams::vx_new(o, 1.0 - o + g.float(-0.009, 0.009));
        let (o, l) = (p.omega_0, p.omega_lambda);
        let h = g.float(0.5, 1.0);
        let sf = |g: &mut Rng| match g.below(5) { 0 => 1.0, 1 => g.float(1.0, 3.0), _ => 10f64.powf(g.float(-2.5, 0.0)) };
        let (a0, a1) = (sf(g), sf(g));
        let inp = || format!("omega_0 = {o}, omega_lambda = {l}, h = {h}, from a = {a0} to a = {a1}");
        case(a0 != a1, inp);
        let t = |x: f64, y: f64| p.time_difference_between_scalefactors(x.into(), y.into(), h.into()).in_seconds();
        let got = t(a0, a1);
        // the Friedmann equation, integrated in u = ln a
        let hub = 1e5 * h / 3.0857e22;
        let rate = |u: f64| 1.0 / (hub * (o * (-3.0 * u).exp() + l).sqrt());
        let n = 400;
        let (u0, u1) = (a0.ln(), a1.ln());
        let du = (u1 - u0) / n as f64;
        let want: f64 = (0..n).map(|i| { let u = u0 + i as f64 * du; (rate(u) + 4.0 * rate(u + du / 2.0) + rate(u + du)) * du / 6.0 }).sum();
        check("time passes as the Friedmann equation has it", close(got, want, want.abs() + 1e9, 1e-3), inp, || format!("{got} s instead of {want} s"));
        check("back is minus forth", close(t(a1, a0), -got, t(1e-9, a0.max(a1)), 1e-9) && t(a0, a0) == 0.0, inp, || format!("{got} and {}", t(a1, a0)));
        let dt = Time::seconds(got);
        let back = guarded("the scale factor at a time can be found", inp, || p.get_scalefactor_from_scalefactor_and_time_difference(a0.into(), h.into(), dt)).value();
        let off = (t(a0, back) - got).abs() / 3.15576e7;
        check("the scale factor at a time is the one of that time", off <= 101.0, inp, || format!("a = {back}, {off} years off"));
        if a1 >= a0 {
            let c = Cosmology::Cosmological { a: a0, h, params: Some(p) };
            match guarded("the time can be told", inp, || TimeSpec::new(dt, &c)) {
                TimeSpec::Cosmological(s) => check("redshift, scale factor and time of an output belong together", (s.scale_factor.value() - back).abs() < 1e-9 && close((s.redshift.value() + 1.0) * s.scale_factor.value(), 1.0, 1.0, 1e-9), inp, || format!("{:?} {:?}", s.scale_factor, s.redshift)),
                TimeSpec::Time(_) => check("redshift, scale factor and time of an output belong together", false, inp, || "no scale factor".into()),
            }
            check("redshift, scale factor and time of an output belong together", matches!(TimeSpec::new(dt, &Cosmology::NonCosmological), TimeSpec::Time(t) if t == dt), inp, || "without cosmology".into());
            let cmd = Commands::default();
            guarded("the attributes can be set", inp, || set_initial_cosmology_attributes_system(cmd.clone(), Res(&c)));
            let (sf, z, lh) = (cmd.vx_get::<ScaleFactor>(), cmd.vx_get::<Redshift>(), cmd.vx_get::<LittleH>());
            check("a run starts with the attributes of its cosmology", matches!((sf, z, lh), (Some(s), Some(z), Some(l)) if s.0.value() == a0 && close(z.0.value(), 1.0 / a0 - 1.0, 1.0 / a0, 1e-12) && l.0.value() == h), inp, || format!("{:?} {:?} {:?}", sf.map(|x| x.0), z.map(|x| x.0), lh.map(|x| x.0)));
            let (mut sf, mut z) = (ScaleFactor(a0.into()), Redshift((1.0 / a0 - 1.0).into()));
            guarded("the time can be told", inp, || crate::simulation_plugin::set_cosmological_time_variables_system(Res(&c), Res(&crate::simulation_plugin::SimulationTime(dt)), ResMut(&mut sf), ResMut(&mut z)));
            check("scale factor and redshift follow the time", (sf.0.value() - back).abs() < 1e-9 && close((z.0.value() + 1.0) * back, 1.0, 1.0, 1e-8), inp, || format!("{:?} {:?}", sf.0, z.0));
            let d = c.time_difference_between_scalefactors(a0.into(), a1.into()).in_seconds();
            check("a cosmology uses its parameters", d == got, inp, || format!("{d}"));
        }
    }

    pub fn run() {
        quiet();
        let mut g = Rng::new(seed());
        let k = if thorough() { 20 } else { 1 };
        table();
        symbols_and_dimensions();
        for _ in 0..500 * k { round_trips(&mut g) }
        for _ in 0..1000 * k { factors(&mut g) }
        for i in 0..500 * k { datasets(&mut g, i) }
        for _ in 0..1000 * k { times(&mut g) }
        done();
    }
}
