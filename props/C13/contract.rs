pub mod vx {
    use super::vxw::{self, *};
    use super::*;
    use crate::chemistry::hydrogen_only::{HydrogenOnly, HydrogenOnlySpecies};
    use crate::units;
    use crate::units::*;
    use vxcore::*;

    fn conserved(g: &Grid, w: &World) {
        let inp = || g.describe();
        let dirs = g.unit_dirs();
        let n = g.cells.len();
        // what the neighbours pass on, with the corrections left out that go to an inactive cell of another
        // rank (known finding): direction by direction, (incoming, periodic, were any left out)
        let mut out = vec![vec![0.0; n]; dirs.len()];
        let mut lossy = vec![vec![(0.0, 0.0, false); n]; dirs.len()];
        for step in 0..g.steps {
            for (low, solves) in vxw::solves(g, w, step) {
                for (i, d, new) in solves {
                    lossy[d][i].0 = f64::max(lossy[d][i].0, 0.0);
                    let c = &g.cells[i];
                    let corr = new - out[d][i];
                    out[d][i] = new;
                    let eff = |n: &[f64; 3], a: f64| a * (n[0] * dirs[d][0] + n[1] * dirs[d][1] + n[2] * dirs[d][2]);
                    let sum: f64 = c.faces.iter().map(|(n, a, _)| eff(n, *a)).filter(|x| *x > 0.0).sum();
                    for (n, a, to) in &c.faces { if eff(n, *a) > 0.0 {
                        let f = corr * eff(n, *a) / sum;
                        let (j, per) = match to { To::Cell(j) => (*j, false), To::Image(j) => (*j, true), To::Edge => continue };
                        if g.cells[j].rank != c.rank && w.levels[step][j] < low { lossy[d][j].2 = true }
                        else if per { lossy[d][j].1 += f } else { lossy[d][j].0 += f }
                    } }
                }
            }
            let mut st: Vec<Option<(&Vec<f64>, &Vec<f64>, &Vec<f64>)>> = vec![None; g.cells.len()];
            for r in &w.ranks { for (i, a, b, c) in &r.states[step] { st[*i] = Some((a, b, c)) } }
            let st: Vec<_> = st.into_iter().map(|x| x.unwrap()).collect();
            let total: f64 = g.cells.iter().map(|c| c.source).sum::<f64>() + st.iter().flat_map(|s| s.0.iter().chain(s.1).chain(s.2)).map(|x| x.abs()).sum::<f64>() + 1e-300;
            for (d, dir) in dirs.iter().enumerate() {
                let mut inc = vec![0.0; g.cells.len()];
                let mut per = vec![0.0; g.cells.len()];
                for (i, c) in g.cells.iter().enumerate() {
                    let eff = |n: &[f64; 3], a: f64| a * (n[0] * dir[0] + n[1] * dir[1] + n[2] * dir[2]);
                    let sum: f64 = c.faces.iter().map(|(n, a, _)| eff(n, *a)).filter(|x| *x > 0.0).sum();
                    for (n, a, to) in &c.faces {
                        if eff(n, *a) > 0.0 {
                            let f = st[i].1[d] * eff(n, *a) / sum;
                            match to { To::Cell(j) => inc[*j] += f, To::Image(j) => per[*j] += f, To::Edge => {} }
                        }
                    }
                }
                for i in 0..g.cells.len() {
                    let m = |what: &str, got: f64, want: f64| format!("after step {step}, direction {d}, cell {i} on level {}: {what} {got:e}, its upwind neighbours pass on {want:e}", w.levels[step][i]);
                    let l = (lossy[d][i].0, lossy[d][i].1, lossy[d].iter().any(|x| x.2));
                    let known_loss = |got: f64, want: f64| {
                        let k = l.2 && close(got, want, total, 1e-9);
                        if k { known("correction-to-inactive-remote-cell-dropped", &inp()) }
                        k
                    };
                    check("a cell receives what its upwind neighbours pass on to it", close(st[i].0[d], inc[i], total, 1e-9) || known_loss(st[i].0[d], l.0), inp, || m("incoming rate", st[i].0[d], inc[i]));
                    check("a cell receives what its periodic upwind neighbours pass on to it", close(st[i].2[d], per[i], total, 1e-9) || known_loss(st[i].2[d], l.1), inp, || m("periodic source", st[i].2[d], per[i]));
                    check("rates are not negative", l.2 || st[i].0[d] >= -1e-9 * total && st[i].1[d] >= -1e-9 * total, inp, || m("rates negative: incoming", st[i].0[d], st[i].1[d]));
                }
            }
            for r in &w.ranks { for e in &r.steps[step].events {
                let (cell, rate, parts) = match &e.what { What::Solve { cell, rate, parts, .. } => (cell, rate, parts), What::Update { cell, rate, parts, .. } => (cell, rate, parts) };
                check("what enters a cell is what came in, what it emits, and nothing else", close(*rate, *parts, total, 1e-9), inp, || format!("step {step}, {:?} (cell {cell}): rate {rate:e}, sum of its parts {parts:e}", e.what));
            } }
        }
    }

    fn absorption(g: &mut Rng) {
        let dirs: Directions = (&DirectionsSpecification::Num(1)).into();
        for _ in 0..if thorough() { 400000 } else { 40000 } {
            let n = 10f64.powf(g.float(-9.0, 4.0));
            let x = match g.below(5) { 0 => 0.0, 1 => 1.0, 2 => 1e-10, _ => g.unit() };
            let len = 10f64.powf(g.float(-2.0, 23.0));
            let rate = match g.below(6) { 0 => 0.0, _ => 10f64.powf(g.float(-5.0, 60.0)) };
            let thr = match g.below(3) { 0 => 0.0, 1 => rate * *g.pick(&[0.5, 1.0, 2.0]), _ => 10f64.powf(g.float(-5.0, 60.0)) };
            let inp = || format!("density {n:e} / cm^3, ionized fraction {x}, cell size {len:e} m, incoming rate {rate:e} / s, threshold {thr:e} / s");
            case(rate > 0.0, inp);
            let chem = HydrogenOnly { rate_threshold: units::PhotonRate::photons_per_second(thr), scale_factor: Dimensionless::dimensionless(1.0), timestep_safety_factor: Dimensionless::dimensionless(0.1), prevent_cooling: g.bool() };
            let density = NumberDensity::per_centimeters_cubed(n) * PROTON_MASS;
            let site = Site::<HydrogenOnly>::new(&dirs, HydrogenOnlySpecies::new(Dimensionless::dimensionless(x), units::Temperature::kelvins(1e3)), density, units::PhotonRate::zero());
            let cell = Cell { neighbours: vec![], size: Length::meters(len), volume: units::Volume::cubic_meters(1.0) };
            let out = chem.get_outgoing_rate(&cell, &site, units::PhotonRate::photons_per_second(rate)).in_photons_per_second();
            let tau = n * 1e6 * (1.0 - x) * NUMBER_WEIGHTED_AVERAGE_CROSS_SECTION.in_square_meters() * len;
            let want = if rate < thr { 0.0 } else { rate * (-tau).exp() };
            check("a cell passes on between nothing and all of what enters it", out >= 0.0 && out <= rate, inp, || format!("{out:e} / s"));
            check("a cell absorbs the fraction its neutral gas is opaque to", (out - want).abs() <= 1e-9 * rate * (1.0 + tau) || close(out, want, want, 1e-9 * (1.0 + tau)), inp, || format!("passes on {out:e} / s, with optical depth {tau:e} it should be {want:e} / s"));
        }
    }

    /// the distribution step as the sweep does it, for rates of the real chemistry: make_positive, get_rate
    fn sites(g: &mut Rng) {
        for _ in 0..if thorough() { 100000 } else { 10000 } {
            let nd = g.range(1, 6) as usize;
            let dirs: Directions = (&DirectionsSpecification::Explicit((0..nd).map(|_| VecDimensionless::dimensionless(g.float(0.1, 1.0), 0.0, 1.0)).collect())).into();
            let src = if g.bool() { 0.0 } else { g.float(0.0, 1e50) };
            let mut s = Site::<HydrogenOnly>::new(&dirs, HydrogenOnlySpecies::new(Dimensionless::dimensionless(0.5), units::Temperature::kelvins(1e3)), units::Density::zero(), units::PhotonRate::photons_per_second(src));
            let v: Vec<(f64, f64)> = (0..nd).map(|_| (g.float(0.0, 1e50), if g.bool() { 0.0 } else { g.float(0.0, 1e50) })).collect();
            for d in 0..nd { s.incoming_total_rate[d] = units::PhotonRate::photons_per_second(v[d].0); s.periodic_source[d] = units::PhotonRate::photons_per_second(v[d].1) }
            let inp = || format!("{nd} directions, source {src:e}, (incoming, periodic) {v:?}");
            case(true, inp);
            let mut sum = 0.0;
            for d in 0..nd {
                let r = s.get_rate(nd, DirectionIndex(d)).in_photons_per_second();
                sum += r;
                check("the rate of a direction is what came in plus the cell's own emission", close(r, v[d].0 + v[d].1 + src / nd as f64, 1e51, 1e-12), inp, || format!("direction {d}: {r:e}"));
            }
            let want: f64 = src + v.iter().map(|x| x.0 + x.1).sum::<f64>();
            check("over all directions a cell emits its source once", close(sum, want, 1e51, 1e-12), inp, || format!("{sum:e} instead of {want:e}"));
            let t = s.total_incoming_rate().in_photons_per_second();
            check("the total incoming rate is the sum over the directions", close(t, v.iter().map(|x| x.0).sum(), 1e51, 1e-12), inp, || format!("{t:e}"));
            let mut p = units::PhotonRate::photons_per_second(g.float(-1.0, 1.0));
            let before = p.in_photons_per_second();
            p.make_positive();
            check("make_positive removes negative rates only", p.in_photons_per_second() == before.max(0.0), &|| format!("rate {before}"), || format!("{p:?}"));
        }
    }

    pub fn run() {
        quiet();
        vxw::watchdog();
        let mut g = Rng::new(seed());
        absorption(&mut g);
        sites(&mut g);
        for t in 0..if thorough() { 20000 } else { 1500 } {
            let grid = Grid::random(&mut g, t % 3 == 0);
            case(grid.cells.len() > 1, || grid.describe());
            let w = vxw::run(&grid);
            conserved(&grid, &w);
        }
        done();
    }
}
