
/// Contract of the split and of the flips, for any coordinates.
pub mod vx {
    use super::*;
    use super::super::dimension::{DFace, DTetra};
    use super::super::{FaceList, PointList, TetraList};
    use crate::extent::Extent;
    use crate::hash_map::HashMap;
    use symx::*;

    type P = DVec3;
    fn v(n: &str) -> P { P::new(R::var(&format!("{n}x")), R::var(&format!("{n}y")), R::var(&format!("{n}z"))) }
    fn cross(a: P, b: P) -> P { P::new(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x) }
    fn dot(a: P, b: P) -> R { a.x * b.x + a.y * b.y + a.z * b.z }
    /// six times the signed volume; positive: the order of the vertices is the one the predicates want
    fn orient(a: P, b: P, c: P, d: P) -> R { dot(b - a, cross(c - a, d - a)) }
    fn odd<const N: usize>(p: [usize; N]) -> bool { (0..N).map(|a| (0..a).filter(|b| p[*b] > p[a]).count()).sum::<usize>() % 2 == 1 }
    /// the orders of four vertices that keep the orientation
    fn even() -> Vec<[usize; 4]> { let mut r = vec![]; for a in 0..256 { let p = [a & 3, a >> 2 & 3, a >> 4 & 3, a >> 6]; if (0..4).all(|k| p.contains(&k)) && !odd(p) { r.push(p) } } r }

    pub struct W { t: Triangulation<ThreeD>, tets: Vec<TetraIndex> }
    /// A triangulation of the tetrahedra given by their vertices; faces listed in `turned` name their points in the other sense.
    fn world(x: &[P], tets: &[[usize; 4]], turned: &dyn Fn(usize) -> bool) -> W {
        let zero = P::new(R::int(0), R::int(0), R::int(0));
        let mut t = Triangulation::<ThreeD> { tetras: TetraList::<ThreeD>::default(), faces: FaceList::<ThreeD>::default(), points: PointList::<ThreeD>::default(), point_kinds: HashMap::default(), last_insertion_tetra: None, extent: Extent::from_min_max(zero, zero) };
        let p: Vec<PointIndex> = x.iter().map(|x| t.points.insert(*x)).collect();
        let mut faces: Vec<([usize; 3], [usize; 3], FaceIndex)> = vec![];
        let sorted = |mut a: [usize; 3]| { a.sort(); a };
        let mut index: Vec<TetraIndex> = vec![];
        for tet in tets {
            let mut info = vec![];
            for k in 0..4 {
                let rest: Vec<usize> = (0..4).filter(|j| *j != k).map(|j| tet[j]).collect();
                let mut f = [rest[0], rest[1], rest[2]];
                let at = match faces.iter().position(|g| g.0 == sorted(f)) {
                    Some(at) => at,
                    None => {
                        if turned(faces.len()) { f.swap(0, 1) }
                        f.rotate_left(faces.len() % 3);
                        let fi = t.faces.insert(Face { p1: p[f[0]], p2: p[f[1]], p3: p[f[2]] });
                        faces.push((sorted(f), f, fi));
                        faces.len() - 1
                    }
                };
                let g = faces[at].1;
                let place = |q: usize| tet.iter().position(|z| *z == q).unwrap();
                info.push(FaceInfo { face: faces[at].2, opposing: None, flipped: odd([place(g[0]), place(g[1]), place(g[2]), k]) });
            }
            index.push(t.tetras.insert(Tetra { p1: p[tet[0]], p2: p[tet[1]], p3: p[tet[2]], p4: p[tet[3]], f1: info[0], f2: info[1], f3: info[2], f4: info[3] }));
        }
        for a in 0..tets.len() {
            for b in 0..tets.len() {
                if a == b { continue }
                let ta = t.tetras[index[a]].clone();
                for (f, opp) in t.tetras[index[b]].clone().faces_and_points() {
                    if ta.faces().any(|g| g.face == f.face) { t.tetras[index[a]].find_face_mut(f.face).opposing = Some(ConnectionData { tetra: index[b], point: opp }) }
                }
            }
        }
        W { t, tets: index }
    }

    /// what holds of the tetrahedra `new` and of the store as a whole
    fn valid(what: &str, w: &W, x: &[P], new: &[TetraIndex], outer: &[usize], volume: R) {
        let t = &w.t;
        let name = |s: &str| format!("{what}: {s}");
        let at = |p: PointIndex| x[p.0];
        let mut sum = R::int(0);
        for i in new {
            ensure(&name("the tetrahedra reported are in the store"), t.tetras.contains(*i));
            let tet = &t.tetras[*i];
            let p: Vec<P> = tet.points().map(at).collect();
            let o = orient(p[0], p[1], p[2], p[3]);
            ensure_lt(&name("new tetrahedra are positively oriented"), R::int(0), o);
            sum = sum + o;
            for (f, opposite) in tet.faces_and_points() {
                let q: Vec<P> = t.faces[f.face].points().map(at).collect();
                let s = orient(q[0], q[1], q[2], at(opposite));
                ensure_lt(&name("a face of a new tetrahedron is marked as turned if it is"), R::int(0), if f.flipped { -s } else { s });
            }
        }
        ensure_eq(&name("the new tetrahedra have the volume of the old ones"), sum, volume);
        let mut live: Vec<TetraIndex> = t.tetras.iter().map(|x| x.0).collect();
        let mut want: Vec<TetraIndex> = new.iter().copied().chain(outer.iter().map(|k| w.tets[*k])).collect();
        live.sort(); want.sort();
        ensure(&name("the store holds the new tetrahedra and the neighbours"), live == want);
        let mut owned = 0;
        for (f, face) in t.faces.iter() {
            let own: Vec<(TetraIndex, PointIndex, Option<ConnectionData>)> = t.tetras.iter().flat_map(|(i, tet)| tet.faces_and_points().filter(|(g, _)| g.face == f).map(move |(g, p)| (i, p, g.opposing)).collect::<Vec<_>>()).collect();
            let ok = match &own[..] {
                [a] => a.2.is_none(),
                [a, b] => a.2 == Some(ConnectionData { tetra: b.0, point: b.1 }) && b.2 == Some(ConnectionData { tetra: a.0, point: a.1 }),
                _ => false,
            };
            ensure(&name("every face has one or two tetrahedra, which know each other"), ok);
            for (i, opposite, _) in &own {
                let tet = &t.tetras[*i];
                ensure(&name("a face has the points of its tetrahedra but the opposite ones"), face.points().all(|p| tet.contains_point(p) && p != *opposite) && tet.contains_point(*opposite));
            }
            owned += own.len();
        }
        ensure(&name("every tetrahedron has four faces of the store"), owned == 4 * live.len());
        // no two faces have the same points, so that what is adjacent shares a face
        let mut keys: Vec<Vec<PointIndex>> = t.faces.iter().map(|(_, f)| { let mut k: Vec<PointIndex> = f.points().collect(); k.sort(); k }).collect();
        keys.sort();
        let n = keys.len();
        keys.dedup();
        ensure(&name("no face is stored twice"), keys.len() == n);
    }

    fn pick(t: [usize; 4], o: [usize; 4]) -> [usize; 4] { o.map(|k| t[k]) }
    fn vol(x: &[P], t: [usize; 4]) -> R { orient(x[t[0]], x[t[1]], x[t[2]], x[t[3]]) }

    /// point 4 in the tetrahedron 0 1 2 3, neighbours with the points 5 to 8
    fn split() {
        for mask in 0..16usize {
            for turn in [0usize, 0b1111, 0b0101, 0b1110] {
                explore("split", 10, || {
                    let x: Vec<P> = (0..9).map(|k| if k == 0 { P::new(R::int(0), R::int(0), R::int(0)) } else { v(&format!("p{k}")) }).collect();
                    let old = [0, 1, 2, 3];
                    assume(vol(&x, old) > R::int(0));
                    for k in 0..4 { let mut q = old; q[k] = 4; assume(vol(&x, q) > R::int(0)) }
                    let mut tets = vec![old];
                    for k in 0..4 { if mask >> k & 1 == 1 { let mut q = old; q[k] = 5 + k; tets.push(q) } }
                    let mut w = world(&x, &tets, &|f| turn >> f & 1 == 1);
                    let i = w.tets[0];
                    let new = Delaunay::split(&mut w.t, i, PointIndex(4));
                    let outer: Vec<usize> = (1..tets.len()).collect();
                    ensure("split: four tetrahedra, all with the new point", new.len() == 4 && new.iter().all(|n| w.t.tetras[*n].contains_point(PointIndex(4))));
                    valid("split", &w, &x, &new, &outer, vol(&x, old));
                });
            }
        }
    }

    /// tetrahedra 0 1 2 3 and 2 1 0 4, the line from 3 to 4 through the face 0 1 2
    fn two_to_three() {
        let even = even();
        for (n, oa) in even.iter().enumerate() {
            for (m, ob) in even.iter().enumerate() {
                for turn in [0usize, 1 << 6 | 0b1111] {
                    let mask = (n * 12 + m) % 64;
                    explore("flip of two tetrahedra to three", 10, || {
                        let x: Vec<P> = (0..11).map(|k| if k == 0 { P::new(R::int(0), R::int(0), R::int(0)) } else { v(&format!("p{k}")) }).collect();
                        let (a, b) = ([0, 1, 2, 3], [1, 0, 2, 4]);
                        assume(vol(&x, a) > R::int(0));
                        assume(vol(&x, b) > R::int(0));
                        for k in [[0, 1, 4, 3], [1, 2, 4, 3], [2, 0, 4, 3]] { assume(vol(&x, k) > R::int(0)) }
                        let mut tets = vec![pick(a, *oa), pick(b, *ob)];
                        for k in 0..6 { if mask >> k & 1 == 1 { let mut q = if k < 3 { a } else { b }; q[k % 3] = 5 + k; tets.push(q) } }
                        let mut w = world(&x, &tets, &|f| turn >> f & 1 == 1);
                        let shared = w.t.tetras[w.tets[0]].get_common_face_with(&w.t.tetras[w.tets[1]]).unwrap();
                        let (i, j) = (w.tets[0], w.tets[1]);
                        let new = w.t.two_to_three_flip(i, j, PointIndex(3), PointIndex(4), shared);
                        let outer: Vec<usize> = (2..tets.len()).collect();
                        ensure("flip of two tetrahedra to three: three, all with both opposite points", new.len() == 3 && new.iter().all(|n| w.t.tetras[*n].contains_point(PointIndex(3)) && w.t.tetras[*n].contains_point(PointIndex(4))));
                        valid("flip of two tetrahedra to three", &w, &x, &new, &outer, vol(&x, a) + vol(&x, b));
                    });
                }
            }
        }
    }

    /// tetrahedra around the edge 0 1 with the points 2, 3, 4 around it
    fn three_to_two() {
        let even = even();
        for (n, oa) in even.iter().enumerate() {
            for (m, ob) in even.iter().enumerate() {
                for turn in 0..4usize {
                    let oc = &even[(n * 5 + m * 7 + turn) % 12];
                    let mask = (n * 13 + m * 5 + turn) % 64;
                    explore("flip of three tetrahedra to two", 10, || {
                        let x: Vec<P> = (0..11).map(|k| if k == 0 { P::new(R::int(0), R::int(0), R::int(0)) } else { v(&format!("p{k}")) }).collect();
                        let ts = [[0, 1, 2, 3], [0, 1, 3, 4], [0, 1, 4, 2]];
                        for t in ts { assume(vol(&x, t) > R::int(0)) }
                        for t in [[2, 3, 4, 1], [3, 2, 4, 0]] { assume(vol(&x, t) > R::int(0)) }
                        let mut tets = vec![pick(ts[0], *oa), pick(ts[1], *ob), pick(ts[2], *oc)];
                        for k in 0..6 { if mask >> k & 1 == 1 { let mut q = ts[k / 2]; q[k % 2] = 5 + k; tets.push(q) } }
                        let mut w = world(&x, &tets, &|f| [0, !0, 0b1010101010, 0b110011001100][turn] >> f & 1 == 1);
                        let (i, j, k) = (w.tets[0], w.tets[1], w.tets[2]);
                        // the face 0 1 3 is shared by the first two; 2 and 4 are opposite
                        // (the points of the edge in the order of that face, as Triangle::get_points_of gives them)
                        let shared = w.t.tetras[i].get_common_face_with(&w.t.tetras[j]).unwrap();
                        let order: Vec<PointIndex> = w.t.faces[shared].points().collect();
                        let at = order.iter().position(|p| *p == PointIndex(3)).unwrap();
                        let new = w.t.three_to_two_flip(i, j, k, PointIndex(4), PointIndex(2), PointIndex(3), order[(at + 1) % 3], order[(at + 2) % 3]);
                        let outer: Vec<usize> = (3..tets.len()).collect();
                        ensure("flip of three tetrahedra to two: two, both with the points around the edge", new.len() == 2 && new.iter().all(|n| [2, 3, 4].iter().all(|p| w.t.tetras[*n].contains_point(PointIndex(*p)))));
                        let total = ts.iter().fold(R::int(0), |s, t| s + vol(&x, *t));
                        valid("flip of three tetrahedra to two", &w, &x, &new, &outer, total);
                    });
                }
            }
        }
    }

    /// what `flip` hands to the flip of three tetrahedra: the point opposite an edge and the edge, in the order of the face
    fn edges() {
        use crate::voronoi::primitives::triangle::EdgeIdentifier::*;
        let f = Face { p1: PointIndex(0), p2: PointIndex(1), p3: PointIndex(2) };
        explore("edges", 10, || {
            for (k, e) in [One, Two, Three].into_iter().enumerate() {
                ensure("the point opposite an edge and the points of the edge are those of the face, in its order", f.get_point_opposite(e) == PointIndex(k) && f.get_points_of(e) == (PointIndex((k + 1) % 3), PointIndex((k + 2) % 3)));
            }
        });
    }

    pub fn run() { edges(); split(); two_to_three(); three_to_two() }
}
