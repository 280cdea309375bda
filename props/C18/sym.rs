// Contract of the cells of a regular grid: any number of cells, any cell, any box, any distribution over ranks.
impl GridConstructor { fn get_all_integer_positions(&self) -> Vec<IntegerPosition> { vx::CELLS.with(|c| c.borrow().clone()) } }
pub mod vx {
    use super::*;
    use std::cell::RefCell;
    use symx::*;
    thread_local!(pub static CELLS: RefCell<Vec<IntegerPosition>> = RefCell::new(vec![]));

    fn at(p: &IntegerPosition, d: usize) -> I { [p.x, p.y, p.z][d] }
    fn ip(v: [I; 3]) -> IntegerPosition { IntegerPosition { x: v[0], y: v[1], z: v[2] } }
    fn wraps(t: &ActiveWrapType) -> [i64; 3] { [t.x, t.y, t.z].map(|w| match w { WrapType::NoWrap => 0, WrapType::Plus => 1, WrapType::Minus => -1 }) }
    fn vec(x: [R; 3]) -> VecLength { VecLength::new_unchecked(glam::DVec3::new(x[0], x[1], x[2])) }
    fn box_(l: [R; 3]) -> SimulationBox { SimulationBox::new(crate::domain::Extent::from_min_max(VecLength::zero(), vec(l))) }
    fn parts(p: &ParticleType) -> Option<(ParticleId, Option<Rank>, [i64; 3])> {
        match p {
            ParticleType::Local(id) => Some((*id, None, [0; 3])),
            ParticleType::Remote(r) => Some((r.id, Some(r.rank), [0; 3])),
            ParticleType::LocalPeriodic(p) => Some((p.id, None, wraps(&p.periodic_wrap_type))),
            ParticleType::RemotePeriodic(p) => Some((p.id, Some(p.rank), wraps(&p.periodic_wrap_type))),
            ParticleType::Boundary => None,
        }
    }
    /// n cells and a cell among them; along d anything, along the others inside or anything
    fn cell(d: usize, all: bool) -> ([I; 3], [I; 3]) {
        let (mut n, mut p) = ([I::from(0); 3], [I::from(0); 3]);
        for e in 0..3 {
            n[e] = I::var("n");
            p[e] = I::var("p");
            assume(p[e] >= 0);
            assume(p[e] < n[e]);
            if e != d && !all { assume(p[e] >= 1); assume(p[e] + 1 < n[e]); assume(n[e] >= 3) }
        }
        (n, p)
    }
    /// which of the neighbours of p is the one along d in direction s
    fn neighbour(p: &IntegerPosition, d: usize, s: i32) -> IntegerPosition { let mut v = [p.x, p.y, p.z]; v[d] = v[d] + s; ip(v) }

    pub fn run() {
        explore("number of cells", 1000, || {
            let (n, _) = cell(0, true);
            let c = R::var("cell");
            assume(c > R::int(0));
            let b = box_([n[0].0 * c, n[1].0 * c, n[2].0 * c]);
            let spec = NumCellsSpec::CellSize(Length::new_unchecked(c));
            let m = spec.num_cells(&b);
            for e in 0..3 { ensure_eq("a box of n cells per side has n cells per side", at(&m, e).0, n[e].0) }
            ensure_eq("the volumes of the cells add up to the volume of the box", spec.volume().value_unchecked() * m.x.0 * m.y.0 * m.z.0, n[0].0 * n[1].0 * n[2].0 * c * c * c);
            ensure_eq("the area of a face is the square of the cell size", spec.face_area().value_unchecked(), c * c);
            ensure_eq("the size of a cell is the cell size", spec.cell_size().value_unchecked(), c);
        });
        explore("contained", 2000, || {
            let (n, p) = ([I::var("n"), I::var("n"), I::var("n")], [I::var("p"), I::var("p"), I::var("p")]);
            let inside = (0..3).all(|e| p[e] >= 0 && p[e] < n[e]);
            ensure("a cell is contained exactly if each coordinate is", ip(p).contained(&ip(n)) == inside);
        });
        for d in 0..3 {
            explore("positions", 1000, || {
                let (n, p) = cell(d, true);
                let l = [R::var("l"), R::var("l"), R::var("l")];
                for e in 0..3 { assume(l[e] > R::int(0)) }
                let x = ip(p).to_pos(vec(l), &ip(n)).value_unchecked().to_array()[d];
                ensure_le("cells are in the box", R::int(0), x);
                ensure_lt("cells are in the box", x, l[d]);
                ensure_eq("cells are spaced evenly, from the origin on", x * n[d].0, l[d] * p[d].0);
            });
        }
        // wrapping of a cell's neighbours: all coordinates free
        for k in 0..6 {
            explore("wrapping", 4000, || {
                let (n, p) = cell(0, true);
                let (d, s) = (k / 2, if k % 2 == 0 { -1 } else { 1 });
                let (n, p) = (ip(n), ip(p));
                let q: Vec<_> = p.iter_neighbours().collect();
                ensure("a cell has two neighbours per dimension", q.len() == 6);
                let mine: Vec<_> = q.iter().filter(|q| (0..3).all(|e| at(q, e) == at(&p, e) + if e == d { s } else { 0 })).collect();
                ensure("one neighbour in each direction along each dimension", mine.len() == 1);
                let (t, w) = mine[0].wrapped(&n);
                ensure("a wrapped neighbour is a cell of the grid", w.contained(&n));
                let t = wraps(&t);
                let out = !mine[0].contained(&n);
                for e in 0..3 {
                    ensure("the wrap is across the border crossed, in its sense, and no other", t[e] == if e == d && out { s as i64 } else { 0 });
                    ensure_eq("wrapping moves by the number of cells", at(&w, e).0, at(mine[0], e).0 - R::int(t[e]) * at(&n, e).0);
                }
                let back: Vec<_> = w.iter_neighbours().filter(|q| (0..3).all(|e| at(q, e) == at(&w, e) - if e == d { s } else { 0 })).collect();
                ensure("neighbourhood is mutual", back.len() == 1 && back[0].wrapped(&n).1 == p && (0..3).all(|e| wraps(&back[0].wrapped(&n).0)[e] == -t[e]));
            });
        }
        // the cells as constructed
        for periodic in [false, true] {
            for k in 0..6 {
                explore("cells", 20000, || {
                    let (d, s) = (k / 2, if k % 2 == 0 { -1 } else { 1 });
                    let (n, p) = cell(d, false);
                    let c = R::var("cell");
                    assume(c > R::int(0));
                    let l = [n[0].0 * c, n[1].0 * c, n[2].0 * c];
                    let (n, p) = (ip(n), ip(p));
                    let w = neighbour(&p, d, s).wrapped(&n).1;
                    // the ranks of the two cells: any; all other cells are on rank 0 (only the face between the two is looked at)
                    let ranks: RefCell<Vec<([R; 3], Rank)>> = RefCell::new(vec![]);
                    let f = move |x: VecLength| {
                        let x = x.value_unchecked().to_array().map(|v| v / c);
                        if let Some(r) = ranks.borrow().iter().find(|r| (0..3).all(|e| r.0[e] == x[e])) { return r.1 }
                        let r = if ranks.borrow().len() < 2 { I::var("rank") } else { I::from(0) };
                        ranks.borrow_mut().push((x, r));
                        r
                    };
                    let mut g = GridConstructor { cells: HashMap::default(), ids: HashMap::default(), box_size: box_(l), resolution: NumCellsSpec::CellSize(Length::new_unchecked(c)), rank_function: Box::new(f), rank: I::from(0), allow_periodic: periodic, indices: HashMap::default() };
                    let mut cells = vec![p];
                    if w != p { cells.push(w) }
                    for a in &cells { g.get_rank(*a); }
                    let mut index = 0;
                    for a in &cells { for q in std::iter::once(*a).chain(a.iter_neighbours().map(|q| q.wrapped(&n).1)) {
                        if !g.ids.contains_key(&q) { let rank = g.get_rank(q); g.ids.insert(q, ParticleId { index, rank }); index += 1 }
                    } }
                    CELLS.with(|x| *x.borrow_mut() = cells);
                    g.construct_neighbours();
                    let (a, b) = (&g.cells[&p], &g.cells[&w]);
                    let unit = |f: &Face, s: i32| { let v = f.normal.value_unchecked().to_array(); (0..3).all(|e| v[e] == R::int(if e == d { s as i64 } else { 0 })) };
                    ensure("a cell has two faces per dimension", a.neighbours.len() == 6);
                    ensure_eq("the volume of a cell is its size cubed", a.volume.value_unchecked(), c * c * c);
                    ensure_eq("the size of a cell is the cell size", a.size.value_unchecked(), c);
                    let mine: Vec<_> = a.neighbours.iter().filter(|(f, _)| unit(f, s)).collect();
                    ensure("one face in each direction along each dimension, with the unit vector as normal", mine.len() == 1);
                    let (face, t) = mine[0];
                    ensure_eq("a face has the area of a side", face.area.value_unchecked(), c * c);
                    let out = if s > 0 { at(&p, d) + 1 == at(&n, d) } else { at(&p, d) == 0 };
                    match parts(t) {
                        None => ensure("a cell ends in a boundary only at the border of a box that is not periodic", out && !periodic),
                        Some((id, r, wrap)) => {
                            ensure("a box that is not periodic has boundaries at its border", !out || periodic);
                            ensure("the neighbour is the cell next to it", id == g.ids[&w]);
                            ensure("a neighbour is periodic exactly across the border", (0..3).all(|e| wrap[e] == if e == d && out { s as i64 } else { 0 }));
                            ensure("a neighbour is remote exactly if it is on another rank", if id.rank == g.ids[&p].rank { r.is_none() } else { r == Some(id.rank) });
                            let back: Vec<_> = b.neighbours.iter().filter(|(f, u)| unit(f, -s) && parts(u).map_or(false, |(i, _, v)| i == g.ids[&p] && (0..3).all(|e| v[e] == -wrap[e]))).collect();
                            ensure("neighbourhood is mutual: one face back, with the opposite normal", back.len() == 1);
                            ensure_eq("the two sides of a face agree on its area", back[0].0.area.value_unchecked(), face.area.value_unchecked());
                        }
                    }
                });
            }
        }
        report();
    }
}
