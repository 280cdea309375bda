// Executable contract of the space-filling curve keys.
pub mod vx {
    use super::*;
    use vxcore::*;

    fn k2(x: u128, y: u128) -> u128 { PeanoKey2d::from_integer_pos((x as u64, y as u64)).0 as u128 }
    fn k3(p: [u128; 3]) -> u128 { PeanoKey3d::from_integer_pos((p[0], p[1], p[2])).0 }
    fn key(dim: usize, p: [u128; 3]) -> u128 { if dim == 2 { k2(p[0], p[1]) } else { k3(p) } }

    /// Looks at the block of side 2^j whose corner is p (in units of the block) on the grid coarsened by 2^shift.
    fn block(dim: usize, p: [u128; 3], j: u32, shift: u32) {
        let inp = || format!("{dim}D block of side 2^{j} at {:?} on the grid coarsened by 2^{shift}", p);
        case(true, inp);
        let n = 1u128 << j;
        let nz = if dim == 3 { n } else { 1 };
        let mut cells = vec![];
        for a in 0..n { for b in 0..n { for c in 0..nz {
            let q = [(p[0] << j) + a, (p[1] << j) + b, if dim == 3 { (p[2] << j) + c } else { 0 }];
            let lo = [q[0] << shift, q[1] << shift, q[2] << shift];
            let m = (1u128 << shift) - 1;
            let hi = [lo[0] | m, lo[1] | m, if dim == 3 { lo[2] | m } else { 0 }];
            let k = guarded("no panic", inp, || key(dim, lo)) >> (dim as u32 * shift);
            let kh = guarded("no panic", inp, || key(dim, hi)) >> (dim as u32 * shift);
            check("positions in one coarse cell share their leading digits", k == kh, inp, || format!("positions {:?} and {:?}: leading digits {k:#x} and {kh:#x}", lo, hi));
            cells.push((k, q));
        }}}
        cells.sort();
        let first = cells[0].0;
        check("the keys of a block start at a block boundary", first % (1u128 << (dim as u32 * j)) == 0, inp, || format!("first key {first:#x}"));
        for w in cells.windows(2) {
            check("different positions have different keys, without gaps", w[1].0 == w[0].0 + 1, inp, || format!("{:x?} and {:x?} (key, position) follow each other", w[0], w[1]));
            let dist: u128 = (0..3).map(|i| w[0].1[i].abs_diff(w[1].1[i])).sum();
            check("positions with consecutive keys are neighbours", dist == 1, inp, || format!("{:x?} and {:x?} (key, position)", w[0], w[1]));
        }
    }

    /// position of a key, found by descending through the curve
    fn decode(dim: usize, k: u128, bits: u32) -> Option<[u128; 3]> {
        let mut p = [0u128; 3];
        for l in (0..bits).rev() {
            let mut hit = None;
            for o in 0..(1u128 << dim) {
                let q = [p[0] | ((o & 1) << l), p[1] | ((o >> 1 & 1) << l), p[2] | ((o >> 2 & 1) << l)];
                if key(dim, q) >> (dim as u32 * l) == k >> (dim as u32 * l) { hit = Some(q); break; }
            }
            p = hit?;
        }
        Some(p)
    }

    fn point_key(dim: usize, p: [f64; 3], lo: [f64; 3], hi: [f64; 3]) -> u128 {
        if dim == 2 {
            let v = |a: [f64; 3]| DVec2::new(a[0], a[1]);
            PeanoKey2d::from_point_and_min_max(v(p), v(lo), v(hi)).0 as u128
        } else {
            let v = |a: [f64; 3]| DVec3::new(a[0], a[1], a[2]);
            PeanoKey3d::from_point_and_min_max(v(p), v(lo), v(hi)).0
        }
    }

    fn points(dim: usize, g: &mut Rng) {
        let bits = if dim == 2 { NUM_BITS_PER_DIMENSION_2D } else { NUM_BITS_PER_DIMENSION_3D };
        let scale = *g.pick(&[1.0, 1e-6, 1e10, 3.0e24]);
        let mut lo = [0.0; 3];
        let mut hi = [0.0; 3];
        for i in 0..3 { lo[i] = g.float(-1.0, 1.0) * scale; hi[i] = lo[i] + g.float(0.01, 2.0) * scale; }
        let fr = |g: &mut Rng| match g.below(6) { 0 => 0.0, 1 => 1.0, 2 => 0.5, _ => g.unit() };
        let mut f = [fr(g), fr(g), fr(g)];
        let at = |f: [f64; 3]| { let mut p = [0.0; 3]; for i in 0..3 { p[i] = (lo[i] + f[i] * (hi[i] - lo[i])).clamp(lo[i], hi[i]); } p };
        let p = at(f);
        let axis = g.below(dim as u64) as usize;
        let was = f[axis];
        f[axis] = g.unit();
        let q = at(f);
        let inp = || format!("{dim}D points {:?} and {:?} in the extent {:?} .. {:?}", p, q, lo, hi);
        case(true, inp);
        let kp = guarded("no panic", inp, || point_key(dim, p, lo, hi));
        let kq = guarded("no panic", inp, || point_key(dim, q, lo, hi));
        let (cp, cq) = match (decode(dim, kp, bits), decode(dim, kq, bits)) {
            (Some(a), Some(b)) => (a, b),
            _ => violated("a point inside the extent maps onto the grid", &inp(), &format!("keys {kp:#x}, {kq:#x}")),
        };
        for i in 0..dim {
            if i == axis {
                let ok = if p[i] < q[i] { cp[i] <= cq[i] } else if p[i] > q[i] { cp[i] >= cq[i] } else { cp[i] == cq[i] };
                check("cells are monotone in each coordinate", ok, inp, || format!("cells {:?} and {:?}", cp, cq));
                if (was - f[i]).abs() > 1e-6 { check("points apart by a millionth of the extent are told apart", cp[i] != cq[i], inp, || format!("cells {:?} and {:?}", cp, cq)); }
            } else {
                check("a coordinate depends on nothing but that coordinate", cp[i] == cq[i], inp, || format!("cells {:?} and {:?}", cp, cq));
            }
            let n = (1u128 << bits) as f64;
            let want = (p[i] - lo[i]) / (hi[i] - lo[i]);
            check("the cell lies where the point lies in the extent", ((cp[i] as f64 + 0.5) / n - want).abs() < 0.01, inp, || format!("cell {:?} of {n}", cp));
        }
    }

    pub fn run() {
        quiet();
        let mut g = Rng::new(seed());
        let t = thorough();
        for dim in [2usize, 3] {
            let bits = if dim == 2 { NUM_BITS_PER_DIMENSION_2D } else { NUM_BITS_PER_DIMENSION_3D };
            // the coarsest levels completely
            for j in 0..=(if dim == 2 { 6 } else { 4 }) { block(dim, [0; 3], j, bits - j); }
            for i in 0..(if t { 20_000 } else { 1500 }) {
                let j = g.range(1, if dim == 2 { 4 } else { 3 }) as u32;
                let shift = if i % 3 == 0 { 0 } else { g.range(0, (bits - j) as i64) as u32 };
                let left = bits - j - shift;
                let m = if left == 0 { 0 } else { (1u128 << left) - 1 };
                let r = |g: &mut Rng| match g.below(8) { 0 => 0, 1 => m, 2 => g.below(30) as u128 & m, _ => g.next() as u128 & m };
                let p = [r(&mut g), r(&mut g), if dim == 3 { r(&mut g) } else { 0 }];
                block(dim, p, j, shift);
            }
            // every level refined from the corners of the grid
            for shift in 0..bits - 1 { for c in 0..8u128 {
                let m = (1u128 << (bits - 1 - shift)) - 1;
                block(dim, [m * (c & 1), m * (c >> 1 & 1), if dim == 3 { m * (c >> 2) } else { 0 }], 1, shift);
            }}
            for _ in 0..(if t { 100_000 } else { 3000 }) { points(dim, &mut g); }
        }
        done();
    }
}
