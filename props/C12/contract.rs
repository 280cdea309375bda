pub mod vx {
    use super::vxw::{self, *};
    use vxcore::*;

    /// the solves and updates of each sweep of the step, by rank; checks what they have to be
    pub fn judge(g: &Grid, w: &World) {
        let inp = || g.describe();
        let dirs = g.unit_dirs();
        for step in 0..g.steps {
            let (_, sched) = vxw::schedule(g.levels, step);
            let lv = &w.levels[step];
            let mut pos = vec![0usize; g.ranks];
            for (k, &low) in sched.iter().enumerate() {
                let mut when = std::collections::HashMap::new();
                for r in 0..g.ranks {
                    let act: std::collections::BTreeSet<usize> = (0..g.cells.len()).filter(|&i| g.cells[i].rank == r && lv[i] >= low).collect();
                    if act.is_empty() { continue }
                    let ev = &w.ranks[r].steps[step].events;
                    let whr = |m: String| format!("step {step}, sweep {k} (level {low}), rank {r}: {m}");
                    let mut upd = std::collections::BTreeSet::new();
                    while pos[r] < ev.len() {
                        match &ev[pos[r]].what {
                            What::Solve { cell, dir, .. } => {
                                if !upd.is_empty() { break }
                                check("only active cells are solved", act.contains(cell), inp, || whr(format!("cell {cell} of level {} is solved", lv[*cell])));
                                check("a cell is solved for one of the directions", *dir >= 0 && (*dir as usize) < dirs.len(), inp, || whr(format!("cell {cell} for direction {dir}")));
                                check("each active cell is solved once per direction", when.insert((*cell, *dir as usize), ev[pos[r]].seq).is_none(), inp, || whr(format!("cell {cell} is solved again for direction {dir}")));
                            }
                            What::Update { cell, .. } => {
                                if !act.contains(cell) || !upd.insert(*cell) { break }
                            }
                        }
                        pos[r] += 1;
                        if upd.len() == act.len() { break }
                    }
                    check("each active cell is updated after the sweep", upd == act, inp, || whr(format!("updated {upd:?}, active {act:?}")));
                    for &i in &act { for d in 0..dirs.len() { check("each active cell is solved once per direction", when.contains_key(&(i, d)), inp, || whr(format!("cell {i} is not solved for direction {d}"))) } }
                }
                for (i, c) in g.cells.iter().enumerate() { if lv[i] >= low { for (d, dir) in dirs.iter().enumerate() { for (n, _, to) in &c.faces {
                    if let To::Cell(j) = to { if lv[*j] >= low && n[0] * dir[0] + n[1] * dir[1] + n[2] * dir[2] < 0.0 {
                        check("a cell is solved after all its active upwind neighbours", when[&(*j, d)] < when[&(i, d)], inp, || format!("step {step}, sweep {k} (level {low}), direction {d}: cell {i} is solved before its upwind neighbour {j}"));
                    } }
                } } } }
            }
            for r in 0..g.ranks { check("nothing else is solved", pos[r] == w.ranks[r].steps[step].events.len(), inp, || format!("step {step}, rank {r}: {:?}", &w.ranks[r].steps[step].events[pos[r]..])) }
        }
    }

    /// counters per direction against a plain list
    fn counters(g: &mut Rng) {
        use super::count_by_dir::CountByDir;
        use super::DirectionIndex;
        let n = g.below(9) as usize;
        let v = *g.pick(&[0usize, 1, 2, 3, 7, 1000]);
        let mut hist = format!("CountByDir::new({n}, {v})");
        case(n > 1, || hist.clone());
        let mut c = guarded("a counter can be made", || hist.clone(), || CountByDir::new(n, v));
        let mut m = vec![v; n];
        for _ in 0..g.below(30) {
            if n > 0 {
                let d = g.below(n as u64) as usize;
                if m[d] > 0 && g.below(3) > 0 {
                    hist += &format!(".reduce({d})");
                    m[d] -= 1;
                    let r = guarded("a counter above zero can be reduced", || hist.clone(), || c.reduce(DirectionIndex(d)));
                    check("reducing returns what remains for that direction", r == m[d], || hist.clone(), || format!("returned {r}, {} remain", m[d]));
                } else if m[d] > 0 || g.below(4) > 0 {
                    hist += &format!("[{d}] += 1");
                    m[d] += 1;
                    c[DirectionIndex(d)] += 1;
                } else {
                    let h = hist.clone() + &format!(".reduce({d})");
                    let r = try_guarded(|| c.reduce(DirectionIndex(d)));
                    check("a counter never goes below zero", !matches!(r, Ok(x) if x != 0), || h.clone(), || format!("returned {:?} with nothing remaining", r));
                    return;
                }
            }
            let got: Vec<usize> = (0..n).map(|d| c[DirectionIndex(d)]).collect();
            check("each direction has its own count", got == m, || hist.clone(), || format!("{got:?} instead of {m:?}"));
            let t = guarded("the total can be formed", || hist.clone(), || c.total());
            check("the total is the sum over the directions", t == m.iter().sum::<usize>(), || hist.clone(), || format!("{t} with counts {m:?}"));
        }
        let e = CountByDir::empty();
        check("the empty counter counts nothing", e.total() == 0, &|| "CountByDir::empty()".to_string(), || format!("{}", e.total()));
    }

    /// lists of cells with levels against a plain list
    fn lists(g: &mut Rng) {
        use super::active_list::ActiveList;
        use super::{ParticleId, TimestepLevel};
        let n = 1 + g.below(7) as usize;
        let nl = 1 + g.below(5) as usize;
        let rank = g.below(3) as i32;
        let id = |i: usize| ParticleId { index: i as u32, rank };
        let l0 = g.below(nl as u64) as usize;
        let mut hist = format!("ActiveList of {n} cells of rank {rank} with {nl} levels, all on level {l0}");
        case(n > 1 && nl > 1, || hist.clone());
        let mut map = crate::hash_map::HashMap::default();
        for i in 0..n { map.insert(id(i), 100 + i); }
        let mut l = guarded("a list can be made", || hist.clone(), || ActiveList::new(map, nl, TimestepLevel(l0)));
        let mut m: Vec<(usize, usize)> = (0..n).map(|i| (100 + i, l0)).collect();
        for _ in 0..g.below(12) {
            for _ in 0..g.below(4) {
                let i = g.below(n as u64) as usize;
                let v = g.below(nl as u64) as usize;
                match g.below(4) {
                    0 => { hist += &format!("; set_level({i}, {v})"); l.set_level(id(i), TimestepLevel(v)); m[i].1 = v; }
                    1 => { hist += &format!("; *get_mut({i}) += 1"); *l.get_mut(id(i)) += 1; m[i].0 += 1; }
                    2 => {
                        hist += &format!("; *get_mut_and_active_state({i}, {v}) += 1");
                        let (t, a) = l.get_mut_and_active_state(id(i), TimestepLevel(v));
                        *t += 1; m[i].0 += 1;
                        check("a cell is active when its level is at or above the current one", a == (m[i].1 >= v), || hist.clone(), || format!("reported {a} for level {} at {v}", m[i].1));
                    }
                    _ => {
                        hist += &format!("; *get_mut_with_level({i}) += 1");
                        let (lv, t) = l.get_mut_with_level(id(i));
                        *t += 1; m[i].0 += 1;
                        check("a cell keeps the level set for it", lv.0 == m[i].1, || hist.clone(), || format!("level {} of cell {i}, set was {}", lv.0, m[i].1));
                    }
                }
            }
            if g.below(2) == 0 {
                hist += "; all levels anew";
                let new: Vec<usize> = (0..n).map(|_| g.below(nl as u64) as usize).collect();
                for (i, lv, _) in l.enumerate_with_levels_mut() { let k = i.index as usize; *lv = TimestepLevel(new[k]); m[k].1 = new[k]; }
            }
            hist += "; update_bins";
            guarded("the cells can be binned", || hist.clone(), || l.update_bins());
            for i in 0..n {
                check("a cell keeps its data and its level", *l.get(id(i)) == m[i].0 && l.get_level(id(i)).0 == m[i].1, || hist.clone(), || format!("cell {i}: {} on level {}, expected {:?}", l.get(id(i)), l.get_level(id(i)).0, m[i]));
            }
            for c in 0..nl {
                let mut got: Vec<(u32, i32, usize)> = guarded("the active cells can be listed", || hist.clone(), || l.enumerate_active(TimestepLevel(c)).map(|(i, t)| (i.index, i.rank, *t)).collect());
                got.sort();
                let want: Vec<_> = (0..n).filter(|&i| m[i].1 >= c).map(|i| (i as u32, rank, m[i].0)).collect();
                check("the active cells are those at or above the level, once each", got == want, || hist.clone(), || format!("at level {c}: {got:?} instead of {want:?}"));
            }
            let all: Vec<_> = l.enumerate_with_levels().map(|(i, lv, t)| (i.index as usize, lv.0, *t)).collect();
            check("all cells are listed with their levels", all == (0..n).map(|i| (i, m[i].1, m[i].0)).collect::<Vec<_>>(), || hist.clone(), || format!("{all:?}"));
        }
    }

    pub fn run() {
        quiet();
        let mut g = Rng::new(seed() ^ 0xc0);
        for _ in 0..if thorough() { 200000 } else { 4000 } { counters(&mut g); lists(&mut g); }
        vxw::watchdog();
        let mut g = Rng::new(seed());
        for t in 0..if thorough() { 20000 } else { 1500 } {
            let grid = Grid::random(&mut g, t % 3 == 0);
            case(grid.cells.len() > 1, || grid.describe());
            let w = vxw::run(&grid);
            judge(&grid, &w);
        }
        done();
    }
}
