use vstd::prelude::*;
verus! {
//@ extract src/peano_hilbert.rs :: const NUM_BITS_PER_DIMENSION_3D
//@ end
//@ extract src/peano_hilbert.rs :: const ROTATION_TABLE
//@ end
//@ extract src/peano_hilbert.rs :: const SUBPIX_TABLE
//@ end
struct PeanoKey3d(u128);

// ---------------------------------------------------------------- specification
// A position is the sequence of its octants, coarsest first (octant = 4 x-bit + 2 y-bit + z-bit).
spec fn octants(d: Seq<int>) -> bool { forall|i: int| 0 <= i < d.len() ==> 0 <= #[trigger] d[i] < 8 }
spec fn state(d: Seq<int>) -> int decreases d.len() {
    if d.len() == 0 { 0 } else { ROTATION_TABLE[state(d.drop_last())][d.last()] as int }
}
spec fn ckey(d: Seq<int>) -> int decreases d.len() {
    if d.len() == 0 { 0 } else { 8 * ckey(d.drop_last()) + SUBPIX_TABLE[state(d.drop_last())][d.last()] }
}
spec fn axbit(p: int, a: int) -> int { if a == 0 { p / 4 } else if a == 1 { (p / 2) % 2 } else { p % 2 } }
spec fn coord(d: Seq<int>, a: int) -> int decreases d.len() {
    if d.len() == 0 { 0 } else { 2 * coord(d.drop_last(), a) + axbit(d.last(), a) }
}
spec fn pow8(n: nat) -> int decreases n { if n == 0 { 1 } else { 8 * pow8((n - 1) as nat) } }

// ---------------------------------------------------------------- finite facts about the tables
spec fn find_sub(r: int, s: int, p: nat) -> int decreases p {
    if p == 0 { 0 } else if SUBPIX_TABLE[r][p - 1] == s { p - 1 } else { find_sub(r, s, (p - 1) as nat) }
}
spec fn entry(r: int) -> int { find_sub(r, 0, 8) }
spec fn exit(r: int) -> int { find_sub(r, 7, 8) }
// the step from octant p to octant q goes along axis a, forward if s
spec fn step(p: int, q: int, a: int, s: bool) -> bool {
    axbit(p, a) == (if s { 0int } else { 1 }) && axbit(q, a) == (if s { 1int } else { 0 })
    && (a == 0 || axbit(p, 0) == axbit(q, 0)) && (a == 1 || axbit(p, 1) == axbit(q, 1)) && (a == 2 || axbit(p, 2) == axbit(q, 2))
}
// the curve leaves a cell in state r1 and enters the neighbouring cell in state r2, which lies along axis a
spec fn joins(r1: int, r2: int, a: int, s: bool) -> bool { step(entry(r2), exit(r1), a, s) }
spec fn consecutive_ok(r: int, p: int, q: int) -> bool {
    (step(p, q, 0, true) && joins(ROTATION_TABLE[r][p] as int, ROTATION_TABLE[r][q] as int, 0, true))
    || (step(p, q, 0, false) && joins(ROTATION_TABLE[r][p] as int, ROTATION_TABLE[r][q] as int, 0, false))
    || (step(p, q, 1, true) && joins(ROTATION_TABLE[r][p] as int, ROTATION_TABLE[r][q] as int, 1, true))
    || (step(p, q, 1, false) && joins(ROTATION_TABLE[r][p] as int, ROTATION_TABLE[r][q] as int, 1, false))
    || (step(p, q, 2, true) && joins(ROTATION_TABLE[r][p] as int, ROTATION_TABLE[r][q] as int, 2, true))
    || (step(p, q, 2, false) && joins(ROTATION_TABLE[r][p] as int, ROTATION_TABLE[r][q] as int, 2, false))
}
spec fn cell_ok(r: int, p: int) -> bool {
    let s = SUBPIX_TABLE[r][p] as int;
    0 <= s < 8 && 0 <= ROTATION_TABLE[r][p] < 48
    && find_sub(r, s, 8) == p                                     // no two octants share a digit
    && SUBPIX_TABLE[r][find_sub(r, p, 8)] == p                    // every digit occurs
    && 0 <= find_sub(r, p, 8) < 8
    && (s == 7 || consecutive_ok(r, p, find_sub(r, s + 1, 8)))
    && (s != 0 || entry(ROTATION_TABLE[r][p] as int) == p)
    && (s != 7 || exit(ROTATION_TABLE[r][p] as int) == p)
}
spec fn upto(n: nat) -> bool decreases n { if n == 0 { true } else { upto((n - 1) as nat) && cell_ok((n - 1) as int / 8, (n - 1) as int % 8) } }
proof fn unroll(n: nat, r: int, p: int)
    requires upto(n), 0 <= p < 8, 0 <= r, r * 8 + p < n,
    ensures cell_ok(r, p),
    decreases n,
{
    if r * 8 + p < n - 1 { unroll((n - 1) as nat, r, p); } else { assert((n - 1) as int / 8 == r && (n - 1) as int % 8 == p); }
}
proof fn table_facts(r: int, p: int)
    requires 0 <= r < 48, 0 <= p < 8,
    ensures cell_ok(r, p),
{
    assert(upto(384)) by (compute_only);
    unroll(384, r, p);
}

// ---------------------------------------------------------------- lemmas
proof fn lemma_state(d: Seq<int>)
    requires octants(d),
    ensures 0 <= state(d) < 48, 0 <= ckey(d) < pow8(d.len()),
    decreases d.len(),
{
    if d.len() > 0 {
        assert(d.last() == d[d.len() - 1]);
        assert forall|i: int| 0 <= i < d.drop_last().len() implies 0 <= #[trigger] d.drop_last()[i] < 8 by { assert(d[i] == d.drop_last()[i]); }
        lemma_state(d.drop_last());
        table_facts(state(d.drop_last()), d.last());
    }
}
proof fn lemma_octants_prefix(d: Seq<int>)
    requires octants(d), d.len() > 0,
    ensures octants(d.drop_last()), 0 <= d.last() < 8,
{
    assert(d.last() == d[d.len() - 1]);
    assert forall|i: int| 0 <= i < d.drop_last().len() implies 0 <= #[trigger] d.drop_last()[i] < 8 by { assert(d[i] == d.drop_last()[i]); }
}
/// different positions have different keys
proof fn lemma_injective(d: Seq<int>, e: Seq<int>)
    requires octants(d), octants(e), d.len() == e.len(), ckey(d) == ckey(e),
    ensures d == e,
    decreases d.len(),
{
    if d.len() > 0 {
        lemma_octants_prefix(d); lemma_octants_prefix(e);
        let (dp, ep) = (d.drop_last(), e.drop_last());
        lemma_state(dp); lemma_state(ep);
        table_facts(state(dp), d.last()); table_facts(state(ep), e.last());
        assert(ckey(dp) == ckey(ep));
        lemma_injective(dp, ep);
        let s = SUBPIX_TABLE[state(dp)][d.last()] as int;
        assert(find_sub(state(dp), s, 8) == d.last() && find_sub(state(dp), s, 8) == e.last());
        assert(d =~= dp.push(d.last()) && e =~= ep.push(e.last()));
    } else {
        assert(d =~= e);
    }
}
/// every key below 8^n belongs to a position
proof fn lemma_surjective(k: int, n: nat) -> (d: Seq<int>)
    requires 0 <= k < pow8(n),
    ensures d.len() == n, octants(d), ckey(d) == k,
    decreases n,
{
    if n == 0 {
        Seq::empty()
    } else {
        let dp = lemma_surjective(k / 8, (n - 1) as nat);
        lemma_state(dp);
        let s = k % 8;
        table_facts(state(dp), s);
        let p = find_sub(state(dp), s, 8);
        let d = dp.push(p);
        assert(d.drop_last() =~= dp);
        assert(octants(d)) by { assert forall|i: int| 0 <= i < d.len() implies 0 <= #[trigger] d[i] < 8 by { if i < dp.len() { assert(d[i] == dp[i]); } } }
        d
    }
}
/// positions share their leading key digits exactly if they share their leading octants
proof fn lemma_hierarchical(d: Seq<int>, e: Seq<int>)
    requires octants(d), octants(e), d.len() == e.len(), d.len() > 0,
    ensures (ckey(d) / 8 == ckey(e) / 8) <==> d.drop_last() == e.drop_last(), ckey(d) / 8 == ckey(d.drop_last()),
{
    lemma_octants_prefix(d); lemma_octants_prefix(e);
    lemma_state(d.drop_last()); lemma_state(e.drop_last());
    table_facts(state(d.drop_last()), d.last()); table_facts(state(e.drop_last()), e.last());
    if ckey(d) / 8 == ckey(e) / 8 { lemma_injective(d.drop_last(), e.drop_last()); }
}
spec fn moved(d: Seq<int>, e: Seq<int>, a: int, s: bool) -> bool {
    coord(e, a) == coord(d, a) + (if s { 1int } else { -1 })
    && (a == 0 || coord(d, 0) == coord(e, 0)) && (a == 1 || coord(d, 1) == coord(e, 1)) && (a == 2 || coord(d, 2) == coord(e, 2))
}
/// positions with consecutive keys are neighbours: one coordinate differs by one, the others agree
proof fn lemma_adjacent(d: Seq<int>, e: Seq<int>) -> (r: (int, bool))
    requires octants(d), octants(e), d.len() == e.len(), ckey(e) == ckey(d) + 1,
    ensures moved(d, e, r.0, r.1), joins(state(d), state(e), r.0, r.1), 0 <= r.0 < 3,
    decreases d.len(),
{
    if d.len() == 0 {
        (0, true)
    } else {
        lemma_octants_prefix(d); lemma_octants_prefix(e);
        let (dp, ep) = (d.drop_last(), e.drop_last());
        lemma_state(dp); lemma_state(ep);
        table_facts(state(dp), d.last()); table_facts(state(ep), e.last());
        let s = SUBPIX_TABLE[state(dp)][d.last()] as int;
        let t = SUBPIX_TABLE[state(ep)][e.last()] as int;
        if s < 7 {
            assert(ckey(dp) == ckey(ep) && t == s + 1);
            lemma_injective(dp, ep);
            assert(find_sub(state(dp), s + 1, 8) == e.last());
            assert(consecutive_ok(state(dp), d.last(), e.last()));
            let (r1, r2) = (state(d), state(e));
            let (p, q) = (d.last(), e.last());
            if step(p, q, 0, true) && joins(r1, r2, 0, true) { (0, true) }
            else if step(p, q, 0, false) && joins(r1, r2, 0, false) { (0, false) }
            else if step(p, q, 1, true) && joins(r1, r2, 1, true) { (1, true) }
            else if step(p, q, 1, false) && joins(r1, r2, 1, false) { (1, false) }
            else if step(p, q, 2, true) && joins(r1, r2, 2, true) { (2, true) }
            else { (2, false) }
        } else {
            assert(ckey(ep) == ckey(dp) + 1 && t == 0);
            let r = lemma_adjacent(dp, ep);
            assert(exit(state(dp)) == d.last());
            assert(entry(state(ep)) == e.last());
            r
        }
    }
}

// ---------------------------------------------------------------- the code
spec fn hb(x: u128, k: int) -> int { if x & (1u128 << (k as u128)) != 0 { 1 } else { 0 } }
spec fn octant_of(x: u128, y: u128, z: u128, k: int) -> int { 4 * hb(x, k) + 2 * hb(y, k) + hb(z, k) }
spec fn octants_of(x: u128, y: u128, z: u128, n: int) -> Seq<int> { Seq::new(n as nat, |i: int| octant_of(x, y, z, 41 - i)) }

proof fn lemma_octants_of(x: u128, y: u128, z: u128, n: int)
    requires 0 <= n < 42,
    ensures
        octants(octants_of(x, y, z, n + 1)),
        octants(octants_of(x, y, z, n)),
        octants_of(x, y, z, n + 1).drop_last() == octants_of(x, y, z, n),
        octants_of(x, y, z, n + 1).last() == octant_of(x, y, z, 41 - n),
{
    assert(octants_of(x, y, z, n + 1).drop_last() =~= octants_of(x, y, z, n));
}
proof fn lemma_coord(x: u128, y: u128, z: u128, n: int)
    requires 0 <= n <= 42, x < (1u128 << 42), y < (1u128 << 42), z < (1u128 << 42),
    ensures
        coord(octants_of(x, y, z, n), 0) == x >> ((42 - n) as u128),
        coord(octants_of(x, y, z, n), 1) == y >> ((42 - n) as u128),
        coord(octants_of(x, y, z, n), 2) == z >> ((42 - n) as u128),
    decreases n,
{
    if n == 0 {
        assert(forall|x: u128| x < (1u128 << 42u128) ==> #[trigger] (x >> 42u128) == 0) by (bit_vector);
    } else {
        lemma_octants_of(x, y, z, n - 1);
        lemma_coord(x, y, z, n - 1);
        let k = (42 - n) as u128;
        lemma_shift(x, k); lemma_shift(y, k); lemma_shift(z, k);
    }
}
proof fn lemma_shift(x: u128, k: u128)
    requires k < 42,
    ensures x >> k == 2 * (x >> ((k + 1) as u128)) + hb(x, k as int),
{
    let k1 = (k + 1) as u128;
    assert((x >> k) as u128 == add(mul(2u128, x >> k1), if x & (1u128 << k) != 0 { 1u128 } else { 0u128 }) && (x >> k1) < 0x80000000000000000000000000000000u128) by (bit_vector)
        requires k < 42u128, k1 == add(k, 1u128);
}
spec fn mask_at(n: int) -> u128 { if n < 42 { 1u128 << ((41 - n) as u128) } else { 0 } }
proof fn lemma_mask(n: int)
    requires 0 <= n < 42,
    ensures mask_at(n) > 0, mask_at(n) >> 1 == mask_at(n + 1),
{
    let k = (41 - n) as u128;
    assert((1u128 << k) > 0 && (k == 0 ==> (1u128 << k) >> 1u128 == 0) && (k > 0 ==> (1u128 << k) >> 1u128 == 1u128 << sub(k, 1))) by (bit_vector) requires k < 42;
}
proof fn lemma_digit(key: u128, s: u128)
    requires key < (1u128 << 124), s < 8,
    ensures (key << 3u128) | s == 8 * key + s,
{
    assert((key << 3u128) | s == add(mul(8, key), s) && key < 0x10000000000000000000000000000000u128) by (bit_vector) requires key < (1u128 << 124), s < 8;
}
proof fn lemma_pow8(n: nat)
    requires n <= 42,
    ensures pow8(n) <= pow8(42), pow8(42) == 0x40000000000000000000000000000000,
    decreases 42 - n,
{
    assert(pow8(42) == 0x40000000000000000000000000000000) by (compute_only);
    if n < 42 { lemma_pow8(n + 1); lemma_pow8_pos(n); }
}
proof fn lemma_pow8_pos(n: nat) ensures pow8(n) > 0 decreases n { if n > 0 { lemma_pow8_pos((n - 1) as nat); } }

//@ extract src/peano_hilbert.rs :: impl PeanoKey3d :: fn from_integer_pos
//@ rewrite 1 `fn from_integer_pos((x, y, z): (u128, u128, u128)) -> Self` => `fn from_integer_pos_3d(pos: (u128, u128, u128)) -> PeanoKey3d`
//@ ret res
//@ loops 1
//@ spec
    requires pos.0 < (1u128 << 42), pos.1 < (1u128 << 42), pos.2 < (1u128 << 42),
    ensures
        octants(octants_of(pos.0, pos.1, pos.2, 42)),
        res.0 == ckey(octants_of(pos.0, pos.1, pos.2, 42)),
        res.0 < pow8(42),
        coord(octants_of(pos.0, pos.1, pos.2, 42), 0) == pos.0,
        coord(octants_of(pos.0, pos.1, pos.2, 42), 1) == pos.1,
        coord(octants_of(pos.0, pos.1, pos.2, 42), 2) == pos.2,
//@ entry
    let (x, y, z) = pos;
    let ghost mut n: int = 0;
    proof {
        assert(octants_of(x, y, z, 0) =~= Seq::empty());
        lemma_mask(0);
        lemma_coord(x, y, z, 42);
        lemma_octants_of(x, y, z, 41);
        assert(forall|x: u128| #[trigger] (x >> 0u128) == x) by (bit_vector);
    }
//@ loop 0 spec
        invariant
            0 <= n <= 42,
            mask == mask_at(n),
            n < 42 ==> mask > 0,
            rotation == state(octants_of(x, y, z, n)),
            key == ckey(octants_of(x, y, z, n)),
            octants(octants_of(x, y, z, n)),
        ensures n == 42,
        decreases 42 - n,
//@ loop 0 start
        proof {
            assert(n < 42);
            lemma_mask(n);
            let d = octants_of(x, y, z, n);
            lemma_octants_of(x, y, z, n);
            lemma_state(d);
            lemma_pow8(n as nat);
            lemma_pow8((n + 1) as nat);
            lemma_pow8_pos(n as nat);
            assert(pow8((n + 1) as nat) == 8 * pow8(n as nat));
            let k = (41 - n) as u128;
            let p = octant_of(x, y, z, 41 - n);
            table_facts(rotation as int, p);
            assert(1u128 << 124 == 0x10000000000000000000000000000000u128) by (bit_vector);
            lemma_digit(key, SUBPIX_TABLE[rotation as int][p]);
            assert((0usize | 0usize) | 0usize == 0usize && (0usize | 0usize) | 1usize == 1usize && (0usize | 2usize) | 0usize == 2usize && (0usize | 2usize) | 1usize == 3usize && (4usize | 0usize) | 0usize == 4usize && (4usize | 0usize) | 1usize == 5usize && (4usize | 2usize) | 0usize == 6usize && (4usize | 2usize) | 1usize == 7usize) by (bit_vector);
            if n + 1 < 42 { lemma_mask(n + 1); }
            n = n + 1;
        }
//@ loop 0 after
    proof { lemma_state(octants_of(x, y, z, 42)); }
//@ end
}
fn main() {}
