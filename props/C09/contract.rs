pub mod vx {
    use super::timestep_level::TimestepLevel;
    use super::timestep_state::TimestepState;
    use super::vxw::{self, *};
    use crate::units::Time;
    use vxcore::*;

    /// the smallest level whose timestep max * 2^-level does not exceed the desired one; two answers where
    /// the ratio is a power of two up to rounding
    fn wanted(levels: usize, max: f64, desired: f64) -> (usize, usize) {
        let at = |d: f64| (0..levels).find(|l| max / 2f64.powi(*l as i32) <= d).unwrap_or(levels - 1);
        (at(desired * (1.0 + 1e-12)), at(desired * (1.0 - 1e-12)))
    }

    fn level_of_timestep(g: &mut Rng) {
        for t in 0..if thorough() { 2000000 } else { 100000 } {
            let levels = 1 + g.below(31) as usize;
            let max = match g.below(4) { 0 => 1.0, 1 => 10f64.powf(g.float(-3.0, 20.0)), 2 => 3.15576e13, _ => g.float(0.1, 10.0) };
            let (desired, exact) = match g.below(8) {
                0 => (0.0, true),
                1 => (f64::INFINITY, true),
                2 | 3 => (max / 2f64.powi(g.below(34) as i32), true),
                4 => (max * 2f64.powi(g.below(5) as i32), true),
                5 => { let p = max / 2f64.powi(g.below(32) as i32); (p * (1.0 + *g.pick(&[1e-9, -1e-9, 1e-6, -1e-6])), false) }
                _ => (max * 2f64.powf(g.float(-33.0, 4.0)), false),
            };
            let inp = || format!("{levels} levels, largest timestep {max:e} s, desired timestep {desired:e} s");
            case(levels > 1, inp);
            let l = guarded("every desired timestep has a level", inp, || TimestepLevel::from_max_timestep_and_desired_timestep(levels, Time::seconds(max), Time::seconds(desired))).0;
            let (a, b) = if exact { let w = wanted(levels, max, desired * (1.0 + 1e-13)).0; (w, w) } else { wanted(levels, max, desired) };
            check("the level of a desired timestep has the largest timestep that does not exceed it", l == a || l == b, inp, || format!("level {l}, should be {a}"));
            let dt = TimestepLevel(l).to_timestep(Time::seconds(max)).in_seconds();
            check("the timestep of a level is the largest one halved that many times", close(dt, max / 2f64.powi(l as i32), max / 2f64.powi(l as i32), 1e-12), inp, || format!("level {l}: {dt:e} s"));
            let _ = t;
        }
    }

    fn schedules() {
        for levels in 1..=if thorough() { 20 } else { 12 } {
            let max = 3.0e13;
            let mut st = TimestepState::new(Time::seconds(max), levels);
            let mut clock: u128 = 0; // in units of the smallest timestep
            for step in 0..levels + 3 {
                let inp = || format!("{levels} levels, global step {step} (counted from 0)");
                case(levels > 1, inp);
                let seq: Vec<usize> = guarded("the levels of a step can be listed", inp, || st.iter_levels_in_sweep_order().map(|l| l.0).collect());
                let elapsed = st.current_max_timestep().in_seconds() / max * 2f64.powi(levels as i32 - 1);
                let allowed: Vec<usize> = st.iter_allowed_levels().map(|l| l.0).collect();
                check("permitted levels are a range up to the highest", !allowed.is_empty() && allowed.windows(2).all(|w| w[1] == w[0] + 1) && *allowed.last().unwrap() == levels - 1, inp, || format!("{allowed:?}"));
                let low = allowed[0];
                let want_low = vxw::schedule(levels, step).0;
                check("the permitted levels grow by one per step", low == want_low, inp, || format!("lowest permitted level {low}, expected {want_low}"));
                let n = 1usize << (levels - 1 - low);
                check("a step lasts as long as the timestep of the lowest permitted level", close(elapsed, n as f64, n as f64, 1e-12), inp, || format!("{elapsed} smallest timesteps, lowest level {low}"));
                check("a step has as many sweeps as smallest timesteps", seq.len() == n, inp, || format!("{} sweeps instead of {n}: {seq:?}", seq.len()));
                for l in low..levels {
                    let each = 1usize << (levels - 1 - l);
                    let at: Vec<usize> = (0..seq.len()).filter(|i| seq[*i] <= l).collect();
                    let want: Vec<usize> = (0..n).step_by(each).collect();
                    check("the substeps of every level follow each other without gap or overlap", at == want, inp, || format!("level {l} is active in sweeps {at:?} of {n}, should be {want:?}"));
                }
                check("every sweep is on a permitted level", seq.iter().all(|l| (low..levels).contains(l)), inp, || format!("{seq:?}"));
                check("all timesteps of a step are synchronised at its start", clock % n as u128 == 0, inp, || format!("the step starts after {clock} smallest timesteps and is {n} long"));
                clock += n as u128;
                for l in 0..levels {
                    let dt = st.timestep_at_level(TimestepLevel(l)).in_seconds();
                    check("the timestep of a level is the largest one halved that many times", close(dt, max / 2f64.powi(l as i32), dt, 1e-12), inp, || format!("level {l}: {dt:e} s"));
                    for d in [max / 2f64.powi(l as i32), max / 2f64.powi(l as i32) * 1.3] {
                        let got = st.get_desired_level_from_desired_timestep(Time::seconds(d)).0;
                        check("levels below the lowest permitted one are never assigned", got == l.max(low), inp, || format!("desired timestep {d:e} s of level {l}: assigned {got}, lowest permitted {low}"));
                    }
                }
                guarded("the permitted levels can advance", inp, || st.advance_allowed_levels());
            }
        }
    }

    /// the record of a whole run: which cell was updated when, with which timestep
    fn judge(g: &Grid, w: &World) {
        let inp = || g.describe();
        for step in 0..g.steps {
            let (low, sched) = vxw::schedule(g.levels, step);
            let lv = &w.levels[step];
            let n = sched.len();
            for i in 0..g.cells.len() { check("levels outside the permitted range never occur", lv[i] >= low && lv[i] < g.levels, inp, || format!("step {step}: cell {i} on level {}, permitted are {low} to {}", lv[i], g.levels - 1)) }
            let total = g.max_dt / 2f64.powi(low as i32);
            let mut updates = vec![0usize; g.cells.len()];
            for r in 0..g.ranks {
                let e = w.ranks[r].steps[step].elapsed;
                check("the time advances by the timestep of the lowest permitted level", close(e, total, total, 1e-12), inp, || format!("step {step}, rank {r}: {e:e} s instead of {total:e} s"));
                let mut ups = w.ranks[r].steps[step].events.iter().filter_map(|e| if let What::Update { cell, dt, .. } = &e.what { Some((*cell, *dt)) } else { None });
                for (k, lowest) in sched.iter().enumerate() {
                    let mut act: Vec<usize> = (0..g.cells.len()).filter(|&i| g.cells[i].rank == r && lv[i] >= *lowest).collect();
                    let mut got = vec![];
                    while got.len() < act.len() { if let Some(x) = ups.next() { got.push(x) } else { break } }
                    let mut ids: Vec<usize> = got.iter().map(|x| x.0).collect();
                    ids.sort(); act.sort();
                    check("in each sweep exactly the cells whose substep begins are advanced", ids == act, inp, || format!("step {step}, sweep {k} of {n}, rank {r}: cells {ids:?} instead of {act:?} (levels {lv:?})"));
                    for (c, dt) in got {
                        updates[c] += 1;
                        let want = g.max_dt / 2f64.powi(lv[c] as i32);
                        check("a cell is advanced by the timestep of its level", close(dt, want, want, 1e-12), inp, || format!("step {step}, cell {c} on level {}: {dt:e} s instead of {want:e} s", lv[c]));
                    }
                }
                let more = ups.next();
                check("no cell is advanced beyond the step", more.is_none(), inp, || format!("step {step}, rank {r}: cell {:?} once more", more));
            }
            for i in 0..g.cells.len() {
                let sum = updates[i] as f64 * g.max_dt / 2f64.powi(lv[i] as i32);
                check("the substeps of a cell cover the step exactly once", close(sum, total, total, 1e-9), inp, || format!("step {step}, cell {i}: {sum:e} s of {total:e} s"));
            }
            // the levels for the next step
            let next = vxw::schedule(g.levels, step + 1).0;
            for i in 0..g.cells.len() {
                let done: usize = (0..=step).map(|s| 1usize << (w.levels[s][i] - vxw::schedule(g.levels, s).0)).sum();
                // the last two rates the cell was advanced with (the first one is a change from nothing)
                let mut rates: Vec<(f64, f64)> = vec![(0.0, 0.0)];
                for s in 0..=step { for e in &w.ranks[g.cells[i].rank].steps[s].events { if let What::Update { cell, dt, rate, .. } = &e.what { if *cell == i { rates.push((*rate, *dt)) } } } }
                let ((old, _), (rate, dt)) = (rates[rates.len() - 2], rates[rates.len() - 1]);
                let by_rate = if rate.abs() < g.threshold { f64::INFINITY } else { dt * rate.abs() / (rate - old).abs() };
                let desired = g.safety * g.wish(i, done - 1).min(by_rate);
                let (a, b) = wanted(g.levels, g.max_dt, desired);
                let (a, b, l) = (a.max(next), b.max(next), w.levels[step + 1][i]);
                check("a cell moves to the level of its desired timestep, within the permitted ones", l == a || l == b, inp, || format!("after step {step}, cell {i}: desired {desired:e} s (rate {rate} after {old}, gas {:e} s) of {:e} s, permitted from level {next}: on level {l} instead of {a}", g.wish(i, done - 1), g.max_dt));
            }
        }
    }

    pub fn run() {
        quiet();
        vxw::watchdog();
        let mut g = Rng::new(seed());
        level_of_timestep(&mut g);
        schedules();
        for t in 0..if thorough() { 20000 } else { 1500 } {
            let grid = Grid::random(&mut g, t % 3 == 0);
            case(grid.levels > 1, || grid.describe());
            let w = vxw::run(&grid);
            judge(&grid, &w);
        }
        done();
    }
}
