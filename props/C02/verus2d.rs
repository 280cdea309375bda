use vstd::prelude::*;
verus! {
//@ extract src/peano_hilbert.rs :: const NUM_BITS_PER_DIMENSION_2D
//@ end
//@ extract src/peano_hilbert.rs :: const NUM_SUBDIVISIONS_2D
//@ rewrite 1 `2u64.pow($e)` => `(1u64 << ($e))`
//@ end
struct PeanoKey2d(u64);

// ---------------------------------------------------------------- specification
// A position is the sequence of its quadrants, coarsest first (quadrant = 2 x-bit + y-bit).
// The state says how the curve is turned in a cell: 2 * (axes swapped) + (both axes reversed).
spec fn quadrants(d: Seq<int>) -> bool { forall|i: int| 0 <= i < d.len() ==> 0 <= #[trigger] d[i] < 4 }
spec fn xb(st: int, q: int) -> int { let b = if st / 2 == 1 { q % 2 } else { q / 2 }; if st % 2 == 1 { 1 - b } else { b } }
spec fn yb(st: int, q: int) -> int { let b = if st / 2 == 1 { q / 2 } else { q % 2 }; if st % 2 == 1 { 1 - b } else { b } }
spec fn sub2(st: int, q: int) -> int { if xb(st, q) == 1 { if yb(st, q) == 1 { 2 } else { 3 } } else { yb(st, q) } }
spec fn rot2(st: int, q: int) -> int {
    if yb(st, q) == 0 { let fl = if xb(st, q) == 1 { 1 - st % 2 } else { st % 2 }; 2 * (1 - st / 2) + fl } else { st }
}
spec fn state(d: Seq<int>) -> int decreases d.len() { if d.len() == 0 { 0 } else { rot2(state(d.drop_last()), d.last()) } }
spec fn ckey(d: Seq<int>) -> int decreases d.len() { if d.len() == 0 { 0 } else { 4 * ckey(d.drop_last()) + sub2(state(d.drop_last()), d.last()) } }
spec fn axbit(q: int, a: int) -> int { if a == 0 { q / 2 } else { q % 2 } }
spec fn coord(d: Seq<int>, a: int) -> int decreases d.len() { if d.len() == 0 { 0 } else { 2 * coord(d.drop_last(), a) + axbit(d.last(), a) } }
spec fn pow4(n: nat) -> int decreases n { if n == 0 { 1 } else { 4 * pow4((n - 1) as nat) } }

spec fn find_sub(st: int, s: int) -> int { if sub2(st, 0) == s { 0 } else if sub2(st, 1) == s { 1 } else if sub2(st, 2) == s { 2 } else { 3 } }
spec fn step(p: int, q: int, a: int, s: bool) -> bool {
    axbit(p, a) == (if s { 0int } else { 1 }) && axbit(q, a) == (if s { 1int } else { 0 }) && axbit(p, 1 - a) == axbit(q, 1 - a)
}
spec fn entry(st: int) -> int { find_sub(st, 0) }
spec fn exit(st: int) -> int { find_sub(st, 3) }
spec fn joins(r1: int, r2: int, a: int, s: bool) -> bool { step(entry(r2), exit(r1), a, s) }
spec fn consecutive_ok(r: int, p: int, q: int) -> bool {
    (step(p, q, 0, true) && joins(rot2(r, p), rot2(r, q), 0, true)) || (step(p, q, 0, false) && joins(rot2(r, p), rot2(r, q), 0, false))
    || (step(p, q, 1, true) && joins(rot2(r, p), rot2(r, q), 1, true)) || (step(p, q, 1, false) && joins(rot2(r, p), rot2(r, q), 1, false))
}
spec fn cell_ok(r: int, p: int) -> bool {
    let s = sub2(r, p);
    0 <= s < 4 && 0 <= rot2(r, p) < 4 && find_sub(r, s) == p && sub2(r, find_sub(r, p)) == p && 0 <= find_sub(r, p) < 4
    && (s == 3 || consecutive_ok(r, p, find_sub(r, s + 1))) && (s != 0 || entry(rot2(r, p)) == p) && (s != 3 || exit(rot2(r, p)) == p)
}
spec fn all_cells() -> bool {
    cell_ok(0, 0) && cell_ok(0, 1) && cell_ok(0, 2) && cell_ok(0, 3) && cell_ok(1, 0) && cell_ok(1, 1) && cell_ok(1, 2) && cell_ok(1, 3)
    && cell_ok(2, 0) && cell_ok(2, 1) && cell_ok(2, 2) && cell_ok(2, 3) && cell_ok(3, 0) && cell_ok(3, 1) && cell_ok(3, 2) && cell_ok(3, 3)
}
proof fn table_facts(r: int, p: int)
    requires 0 <= r < 4, 0 <= p < 4,
    ensures cell_ok(r, p),
{
    assert(all_cells()) by (compute_only);
    assert(r == 0 || r == 1 || r == 2 || r == 3);
    assert(p == 0 || p == 1 || p == 2 || p == 3);
}
proof fn lemma_prefix(d: Seq<int>)
    requires quadrants(d), d.len() > 0,
    ensures quadrants(d.drop_last()), 0 <= d.last() < 4,
{
    assert(d.last() == d[d.len() - 1]);
    assert forall|i: int| 0 <= i < d.drop_last().len() implies 0 <= #[trigger] d.drop_last()[i] < 4 by { assert(d[i] == d.drop_last()[i]); }
}
proof fn lemma_state(d: Seq<int>)
    requires quadrants(d),
    ensures 0 <= state(d) < 4, 0 <= ckey(d) < pow4(d.len()),
    decreases d.len(),
{
    if d.len() > 0 { lemma_prefix(d); lemma_state(d.drop_last()); table_facts(state(d.drop_last()), d.last()); }
}
/// different positions have different keys
proof fn lemma_injective(d: Seq<int>, e: Seq<int>)
    requires quadrants(d), quadrants(e), d.len() == e.len(), ckey(d) == ckey(e),
    ensures d == e,
    decreases d.len(),
{
    if d.len() > 0 {
        lemma_prefix(d); lemma_prefix(e);
        let (dp, ep) = (d.drop_last(), e.drop_last());
        lemma_state(dp); lemma_state(ep);
        table_facts(state(dp), d.last()); table_facts(state(ep), e.last());
        assert(ckey(dp) == ckey(ep));
        lemma_injective(dp, ep);
        assert(find_sub(state(dp), sub2(state(dp), d.last())) == d.last());
        assert(d =~= dp.push(d.last()) && e =~= ep.push(e.last()));
    } else {
        assert(d =~= e);
    }
}
/// every key below 4^n belongs to a position
proof fn lemma_surjective(k: int, n: nat) -> (d: Seq<int>)
    requires 0 <= k < pow4(n),
    ensures d.len() == n, quadrants(d), ckey(d) == k,
    decreases n,
{
    if n == 0 {
        Seq::empty()
    } else {
        let dp = lemma_surjective(k / 4, (n - 1) as nat);
        lemma_state(dp);
        table_facts(state(dp), k % 4);
        let d = dp.push(find_sub(state(dp), k % 4));
        assert(d.drop_last() =~= dp);
        assert(quadrants(d)) by { assert forall|i: int| 0 <= i < d.len() implies 0 <= #[trigger] d[i] < 4 by { if i < dp.len() { assert(d[i] == dp[i]); } } }
        d
    }
}
/// positions share their leading key digits exactly if they share their leading quadrants
proof fn lemma_hierarchical(d: Seq<int>, e: Seq<int>)
    requires quadrants(d), quadrants(e), d.len() == e.len(), d.len() > 0,
    ensures (ckey(d) / 4 == ckey(e) / 4) <==> d.drop_last() == e.drop_last(), ckey(d) / 4 == ckey(d.drop_last()),
{
    lemma_prefix(d); lemma_prefix(e);
    lemma_state(d.drop_last()); lemma_state(e.drop_last());
    table_facts(state(d.drop_last()), d.last()); table_facts(state(e.drop_last()), e.last());
    if ckey(d) / 4 == ckey(e) / 4 { lemma_injective(d.drop_last(), e.drop_last()); }
}
spec fn moved(d: Seq<int>, e: Seq<int>, a: int, s: bool) -> bool {
    coord(e, a) == coord(d, a) + (if s { 1int } else { -1 }) && coord(d, 1 - a) == coord(e, 1 - a)
}
/// positions with consecutive keys are neighbours
proof fn lemma_adjacent(d: Seq<int>, e: Seq<int>) -> (r: (int, bool))
    requires quadrants(d), quadrants(e), d.len() == e.len(), ckey(e) == ckey(d) + 1,
    ensures moved(d, e, r.0, r.1), joins(state(d), state(e), r.0, r.1), 0 <= r.0 < 2,
    decreases d.len(),
{
    if d.len() == 0 {
        (0, true)
    } else {
        lemma_prefix(d); lemma_prefix(e);
        let (dp, ep) = (d.drop_last(), e.drop_last());
        lemma_state(dp); lemma_state(ep);
        table_facts(state(dp), d.last()); table_facts(state(ep), e.last());
        let s = sub2(state(dp), d.last());
        let t = sub2(state(ep), e.last());
        if s < 3 {
            assert(ckey(dp) == ckey(ep) && t == s + 1);
            lemma_injective(dp, ep);
            assert(find_sub(state(dp), s + 1) == e.last());
            assert(consecutive_ok(state(dp), d.last(), e.last()));
            let (r1, r2, p, q) = (state(d), state(e), d.last(), e.last());
            if step(p, q, 0, true) && joins(r1, r2, 0, true) { (0, true) }
            else if step(p, q, 0, false) && joins(r1, r2, 0, false) { (0, false) }
            else if step(p, q, 1, true) && joins(r1, r2, 1, true) { (1, true) }
            else { (1, false) }
        } else {
            assert(ckey(ep) == ckey(dp) + 1 && t == 0);
            let r = lemma_adjacent(dp, ep);
            assert(exit(state(dp)) == d.last());
            assert(entry(state(ep)) == e.last());
            r
        }
    }
}

// ---------------------------------------------------------------- the code
spec fn hb(x: u64, k: int) -> int { if x & (1u64 << (k as u64)) != 0 { 1 } else { 0 } }
spec fn quadrant_of(x: u64, y: u64, k: int) -> int { 2 * hb(x, k) + hb(y, k) }
spec fn quadrants_of(x: u64, y: u64, n: int) -> Seq<int> { Seq::new(n as nat, |i: int| quadrant_of(x, y, 31 - i)) }
proof fn lemma_quadrants_of(x: u64, y: u64, n: int)
    requires 0 <= n < 32,
    ensures
        quadrants(quadrants_of(x, y, n + 1)), quadrants(quadrants_of(x, y, n)),
        quadrants_of(x, y, n + 1).drop_last() == quadrants_of(x, y, n),
        quadrants_of(x, y, n + 1).last() == quadrant_of(x, y, 31 - n),
{
    assert(quadrants_of(x, y, n + 1).drop_last() =~= quadrants_of(x, y, n));
}
proof fn lemma_shift(x: u64, k: u64)
    requires k < 32,
    ensures x >> k == 2 * (x >> ((k + 1) as u64)) + hb(x, k as int),
{
    let k1 = (k + 1) as u64;
    assert((x >> k) as u64 == add(mul(2u64, x >> k1), if x & (1u64 << k) != 0 { 1u64 } else { 0u64 }) && (x >> k1) < 0x8000000000000000u64) by (bit_vector)
        requires k < 32u64, k1 == add(k, 1u64);
}
proof fn lemma_coord(x: u64, y: u64, n: int)
    requires 0 <= n <= 32, x < (1u64 << 32), y < (1u64 << 32),
    ensures
        coord(quadrants_of(x, y, n), 0) == x >> ((32 - n) as u64),
        coord(quadrants_of(x, y, n), 1) == y >> ((32 - n) as u64),
    decreases n,
{
    if n == 0 {
        assert(forall|x: u64| x < (1u64 << 32u64) ==> #[trigger] (x >> 32u64) == 0) by (bit_vector);
    } else {
        lemma_quadrants_of(x, y, n - 1);
        lemma_coord(x, y, n - 1);
        let k = (32 - n) as u64;
        lemma_shift(x, k); lemma_shift(y, k);
    }
}
spec fn s_at(n: int) -> u64 { if n < 32 { 1u64 << ((31 - n) as u64) } else { 0 } }
proof fn lemma_s(n: int)
    requires 0 <= n < 32,
    ensures s_at(n) > 0, s_at(n) / 2 == s_at(n + 1), s_at(n) * s_at(n) == pow4((31 - n) as nat), s_at(n) < 0x1_0000_0000,
    decreases 32 - n,
{
    let k = (31 - n) as u64;
    assert((1u64 << k) > 0 && (1u64 << k) < 0x1_0000_0000 && (k == 0 ==> (1u64 << k) / 2 == 0 && (1u64 << k) == 1) && (k > 0 ==> (1u64 << k) / 2 == 1u64 << sub(k, 1) && (1u64 << k) == mul(2, 1u64 << sub(k, 1)) && 1u64 << sub(k, 1) < 0x80000000)) by (bit_vector) requires k < 32;
    if n < 31 {
        lemma_s(n + 1);
        let (a, b) = (s_at(n) as int, s_at(n + 1) as int);
        assert(a == 2 * b);
        assert(a * a == 4 * (b * b)) by (nonlinear_arith) requires a == 2 * b;
    } else {
        assert(pow4(0) == 1);
    }
}
proof fn lemma_pow4(n: nat)
    requires n <= 32,
    ensures pow4(n) * pow4((32 - n) as nat) == pow4(32), pow4(32) == 0x1_0000_0000_0000_0000, pow4(n) > 0, pow4(n) <= pow4(32),
    decreases n,
{
    assert(pow4(32) == 0x1_0000_0000_0000_0000) by (compute_only);
    lemma_pow4_pos(n);
    lemma_pow4_pos((32 - n) as nat);
    if n > 0 {
        lemma_pow4((n - 1) as nat);
        let (a, b) = (pow4((n - 1) as nat), pow4((32 - n) as nat));
        assert(pow4((32 - (n - 1)) as nat) == 4 * b);
        assert((4 * a) * b == a * (4 * b)) by (nonlinear_arith);
    }
    let (a, b) = (pow4(n), pow4((32 - n) as nat));
    assert(a <= a * b) by (nonlinear_arith) requires a > 0, b > 0;
}
proof fn lemma_pow4_pos(n: nat) ensures pow4(n) > 0 decreases n { if n > 0 { lemma_pow4_pos((n - 1) as nat); } }
spec fn side() -> u64 { 0x1_0000_0000 }
spec fn turned(st: int, a: u64, b: u64) -> int { let v = if st / 2 == 1 { b } else { a }; if st % 2 == 1 { side() - 1 - v } else { v as int } }
proof fn lemma_turned_bit(st: int, a: u64, b: u64, v: u64, n: int)
    requires 0 <= st < 4, 0 <= n < 32, a < side(), b < side(), v == turned(st, a, b),
    ensures
        (v & s_at(n) > 0) == ({ let h = if st / 2 == 1 { hb(b, 31 - n) } else { hb(a, 31 - n) }; (if st % 2 == 1 { 1 - h } else { h }) == 1 }),
{
    let k = (31 - n) as u64;
    let w = if st / 2 == 1 { b } else { a };
    assert((w & (1u64 << k) > 0) == (w & (1u64 << k) != 0) && ((sub(0xffff_ffffu64, w) & (1u64 << k) > 0) == (w & (1u64 << k) == 0))) by (bit_vector) requires k < 32, w < 0x1_0000_0000u64;
}

//@ extract src/peano_hilbert.rs :: impl PeanoKey2d :: fn rot
//@ spec
    requires *old(x) < n, *old(y) < n,
    ensures
        *final(x) < n, *final(y) < n,
        ry != 0 ==> *final(x) == *old(x) && *final(y) == *old(y),
        ry == 0 && rx != 1 ==> *final(x) == *old(y) && *final(y) == *old(x),
        ry == 0 && rx == 1 ==> *final(x) == n - 1 - *old(y) && *final(y) == n - 1 - *old(x),
//@ end

//@ extract src/peano_hilbert.rs :: impl PeanoKey2d :: fn from_integer_pos
//@ rewrite 1 `fn from_integer_pos((mut x, mut y): (u64, u64)) -> Self` => `fn from_integer_pos_2d(pos: (u64, u64)) -> PeanoKey2d`
//@ rewrite * `(($a & $b) > 0) as u64` => `(if ($a & $b) > 0 { 1u64 } else { 0u64 })`
//@ rewrite 1 `Self::rot` => `rot`
//@ rewrite 1 `Self($e)` => `PeanoKey2d($e)`
//@ ret res
//@ loops 1
//@ spec
    requires pos.0 < side(), pos.1 < side(),
    ensures
        quadrants(quadrants_of(pos.0, pos.1, 32)),
        res.0 == ckey(quadrants_of(pos.0, pos.1, 32)),
        coord(quadrants_of(pos.0, pos.1, 32), 0) == pos.0,
        coord(quadrants_of(pos.0, pos.1, 32), 1) == pos.1,
//@ entry
    let (mut x, mut y) = pos;
    let ghost (x0, y0) = pos;
    let ghost mut n: int = 0;
    proof {
        assert(quadrants_of(x, y, 0) =~= Seq::empty());
        assert(1u64 << 32 == 0x1_0000_0000u64 && 1u64 << 31 == 0x8000_0000u64) by (bit_vector);
        lemma_s(0);
        lemma_coord(x, y, 32);
        lemma_quadrants_of(x, y, 31);
        lemma_pow4(32);
        assert(forall|x: u64| #[trigger] (x >> 0u64) == x) by (bit_vector);
        assert(NUM_SUBDIVISIONS_2D == side());
    }
//@ loop 0 spec
        invariant
            0 <= n <= 32, x0 < side(), y0 < side(), NUM_SUBDIVISIONS_2D == side(),
            s == s_at(n),
            n < 32 ==> s > 0,
            quadrants(quadrants_of(x0, y0, n)),
            d == ckey(quadrants_of(x0, y0, n)) * pow4((32 - n) as nat),
            x == turned(state(quadrants_of(x0, y0, n)), x0, y0),
            y == turned(state(quadrants_of(x0, y0, n)), y0, x0),
        ensures n == 32,
        decreases 32 - n,
//@ loop 0 start
        proof {
            assert(n < 32);
            lemma_s(n);
            if n + 1 < 32 { lemma_s(n + 1); }
            let dd = quadrants_of(x0, y0, n);
            lemma_quadrants_of(x0, y0, n);
            lemma_state(dd);
            lemma_state(quadrants_of(x0, y0, n + 1));
            let q = quadrant_of(x0, y0, 31 - n);
            table_facts(state(dd), q);
            lemma_turned_bit(state(dd), x0, y0, x, n);
            lemma_turned_bit(state(dd), y0, x0, y, n);
            lemma_pow4((n + 1) as nat);
            lemma_pow4_pos((31 - n) as nat);
            let (k0, k1, p) = (ckey(dd), ckey(quadrants_of(x0, y0, n + 1)), pow4((31 - n) as nat));
            assert(pow4((32 - n) as nat) == 4 * p);
            assert((32 - (n + 1)) as nat == (31 - n) as nat);
            let sb = sub2(state(dd), q);
            assert(k1 == 4 * k0 + sb);
            assert(k1 * p == k0 * (4 * p) + p * sb) by (nonlinear_arith) requires k1 == 4 * k0 + sb;
            assert(k1 * p <= (pow4((n + 1) as nat) - 1) * p) by (nonlinear_arith) requires k1 <= pow4((n + 1) as nat) - 1, p > 0;
            assert((pow4((n + 1) as nat) - 1) * p == pow4(32) - p) by (nonlinear_arith) requires pow4((n + 1) as nat) * p == pow4(32);
            assert(k0 * (4 * p) >= 0) by (nonlinear_arith) requires k0 >= 0, p > 0;
            assert(p * sb >= 0 && p * sb <= 3 * p) by (nonlinear_arith) requires 0 <= sb <= 3, p > 0;
            assert(p * 0 == 0 && p * 1 == p && p * 2 == 2 * p && p * 3 == 3 * p);
            assert(0u64 ^ 0u64 == 0 && 0u64 ^ 1u64 == 1 && 3u64 ^ 0u64 == 3 && 3u64 ^ 1u64 == 2) by (bit_vector);
            n = n + 1;
        }
//@ loop 0 after
    proof { assert(pow4(0) == 1); }
//@ end
}
fn main() {}
