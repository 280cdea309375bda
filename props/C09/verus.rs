use vstd::prelude::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
verus! {
//@ include ../vx_helpers.rs
type Time = f64;
//@ extract src/sweep/timestep_level.rs :: struct TimestepLevel
//@ end
impl Clone for TimestepLevel { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for TimestepLevel {}
impl TimestepLevel {
//@ extract src/sweep/timestep_level.rs :: impl Add<usize> for TimestepLevel :: fn add
//@ rewrite * `Self::Output` => `TimestepLevel`
//@ ret r
//@ spec
    requires self.0 + rhs <= usize::MAX,
    ensures r.0 == self.0 + rhs,
//@ end
//@ extract src/sweep/timestep_level.rs :: impl SubAssign<usize> for TimestepLevel :: fn sub_assign
//@ spec
    requires old(self).0 >= rhs,
    ensures final(self).0 == old(self).0 - rhs,
//@ end
//@ extract src/sweep/timestep_level.rs :: impl TimestepLevel :: fn is_active
//@ rewrite * `*self >= current_level` => `self.0 >= current_level.0`
//@ ret r
//@ spec
    ensures r == (self.0 >= current_level.0),
//@ end
//@ extract src/sweep/timestep_level.rs :: impl TimestepLevel :: fn is_highest_timestep
//@ ret r
//@ spec
    ensures r == (self.0 == 0),
//@ end
}
//@ extract src/sweep/timestep_state.rs :: struct TimestepState
//@ end
impl Clone for TimestepState { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for TimestepState {}
/// number of levels, lowest permitted level
spec fn nlev(s: TimestepState) -> int { s.max_num_timestep_levels as int }
spec fn lowest(s: TimestepState) -> int { s.current_lowest_allowed.0 as int }
spec fn ok(s: TimestepState) -> bool { 0 <= lowest(s) < nlev(s) < 32 }

// ---------------------------------------------------------------- bits
/// the lowest set bit of x is b
spec fn lowest_bit(x: int, b: int) -> bool { 0 <= b && x % (pow2(b as nat) as int) == 0 && (x / (pow2(b as nat) as int)) % 2 == 1 }
spec fn bit(x: u32, k: u32) -> bool { (x >> k) & 1 == 1 }
proof fn lemma_mask(x: u32, b: u32)
    requires b < 32,
    ensures (x & (1u32 << b) > 0) == bit(x, b),
{
    assert((x & (1u32 << b) > 0) == ((x >> b) & 1 == 1)) by (bit_vector) requires b < 32;
}
/// no bit below b set: a multiple of 2^b
proof fn lemma_multiple(x: u32, b: u32)
    requires b <= 32, forall|k: u32| k < b ==> !bit(x, k),
    ensures (x as int) % (pow2(b as nat) as int) == 0, b < 32 ==> ((x as int) / (pow2(b as nat) as int)) == (x >> b) as int,
    decreases b,
{
    if b == 0 {
        lemma2_to64();
        assert(x >> 0u32 == x) by (bit_vector);
        assert((x as int) % 1 == 0 && (x as int) / 1 == x as int);
    } else {
        let c = (b - 1) as u32;
        lemma_multiple(x, c);
        let p = pow2(c as nat) as int;
        lemma_pow2_pos(c as nat);
        lemma_pow2_unfold(b as nat);
        assert(pow2(b as nat) as int == 2 * p);
        let y = x >> c;
        assert(!bit(x, c));
        assert((x >> c) & 1 == 0 || (x >> c) & 1 == 1) by (bit_vector);
        assert(y & 1 == 0);
        assert(y % 2 == 0) by (bit_vector) requires y & 1 == 0;
        assert(x as int == p * (y as int)) by { lemma_fundamental_div_mod(x as int, p); }
        let h = (y / 2) as int;
        assert(y as int == 2 * h);
        assert(x as int == h * (2 * p)) by (nonlinear_arith) requires x as int == p * (y as int), y as int == 2 * h;
        lemma_mod_multiples_basic(h, 2 * p);
        lemma_div_by_multiple(h, 2 * p);
        if b < 32 {
            assert((x >> c) / 2 == x >> b) by (bit_vector) requires c < 31, b == c + 1;
        }
    }
}
proof fn lemma_no_bit(x: u32)
    requires forall|k: u32| k < 32 ==> !bit(x, k),
    ensures x == 0,
{
    lemma_multiple(x, 32);
    lemma2_to64();
    lemma_small_mod(x as nat, 0x100000000);
}
//@ extract src/sweep/timestep_state.rs :: fn find_index_of_lowest_set_bit_in_int
//@ rewrite * `1 << bit_num` => `1u32 << bit_num`
//@ rewrite * `for bit_num in 0..32` => `for bit_num in 0u32..32u32`
//@ loops 1
//@ ret r
//@ spec
    ensures match r { None => iteration == 0, Some(b) => b < 32 && lowest_bit(iteration as int, b as int) },
//@ loop 0 spec
        invariant forall|k: u32| k < bit_num ==> !bit(iteration, k),
//@ loop 0 start
        proof {
            lemma_mask(iteration, bit_num);
            if bit(iteration, bit_num) {
                lemma_multiple(iteration, bit_num);
                let y = iteration >> bit_num;
                assert(y % 2 == 1) by (bit_vector) requires y & 1 == 1;
            }
        }
//@ loop 0 after
    proof { lemma_no_bit(iteration); }
//@ end
/// the level at which the i-th sweep of a step runs: level l takes part in it exactly when i is a
/// multiple of the number of smallest timesteps a timestep of level l has
spec fn active_at(s: TimestepState, lev: int, i: int) -> bool {
    &&& lowest(s) <= lev < nlev(s)
    &&& forall|l: int| lowest(s) <= l < nlev(s) ==> (lev <= l <==> i % (#[trigger] pow2((nlev(s) - 1 - l) as nat) as int) == 0)
}
proof fn lemma_active(s: TimestepState, i: int, lev: int)
    requires
        ok(s), 0 <= i < pow2((nlev(s) - 1 - lowest(s)) as nat) as int,
        if i == 0 { lev == lowest(s) } else { lowest_bit(i, nlev(s) - 1 - lev) && lev < nlev(s) },
    ensures active_at(s, lev, i),
{
    let top = nlev(s) - 1;
    if i != 0 {
        let b = top - lev;
        let p = pow2(b as nat) as int;
        lemma_pow2_pos(b as nat);
        if lev < lowest(s) {
            // 2^b divides i, but i is smaller than 2^b
            lemma_pow2_monotone((top - lowest(s)) as nat, b as nat);
            lemma_small_mod(i as nat, p as nat);
            assert(false);
        }
        assert forall|l: int| lowest(s) <= l < nlev(s) implies (lev <= l <==> i % (#[trigger] pow2((top - l) as nat) as int) == 0) by {
            let c = (top - l) as nat;
            let q = pow2(c) as int;
            lemma_pow2_pos(c);
            if lev <= l {
                // q divides p divides i
                lemma_pow2_adds(c, (b - c) as nat);
                let m = pow2((b - c) as nat) as int;
                lemma_fundamental_div_mod(i, p);
                let k = i / p;
                assert(i == (m * k) * q) by (nonlinear_arith) requires i == p * k, p == q * m;
                lemma_mod_multiples_basic(m * k, q);
            } else {
                // q is a multiple of 2p: would make i/p even
                if i % q == 0 {
                    lemma_pow2_adds((b + 1) as nat, (c - b - 1) as nat);
                    lemma_pow2_unfold((b + 1) as nat);
                    let m = pow2((c - b - 1) as nat) as int;
                    lemma_fundamental_div_mod(i, q);
                    let k = i / q;
                    assert(i == (m * k) * 2 * p) by (nonlinear_arith) requires i == q * k, q == (2 * p) * m;
                    lemma_div_by_multiple(m * k * 2, p);
                    assert(i / p == m * k * 2);
                    lemma_mod_multiples_basic(m * k, 2);
                    assert(false);
                }
            }
        }
    } else {
        assert forall|l: int| lowest(s) <= l < nlev(s) implies (lev <= l <==> i % (#[trigger] pow2((top - l) as nat) as int) == 0) by {
            lemma_pow2_pos((top - l) as nat);
            lemma_small_mod(0, pow2((top - l) as nat));
        }
    }
}
proof fn lemma_pow2_monotone(a: nat, b: nat)
    requires a <= b,
    ensures pow2(a) <= pow2(b),
    decreases b - a,
{
    if a < b { lemma_pow2_monotone(a, (b - 1) as nat); lemma_pow2_unfold(b); }
}
impl TimestepState {
//@ extract src/sweep/timestep_state.rs :: impl TimestepState :: fn new
//@ ret r
//@ spec
    requires 1 <= max_num_timestep_levels < 32,
    ensures ok(r), nlev(r) == max_num_timestep_levels, lowest(r) == nlev(r) - 1, r.max_timestep == max_timestep, !r.first_update_at_highest_level_done,
//@ end
//@ extract src/sweep/timestep_state.rs :: impl TimestepState :: fn advance_allowed_levels
//@ rewrite * `self.current_lowest_allowed -= $e;` => `self.current_lowest_allowed.sub_assign($e);`
//@ spec
    requires ok(*old(self)),
    ensures
        ok(*final(self)), nlev(*final(self)) == nlev(*old(self)), final(self).max_timestep == old(self).max_timestep,
        final(self).first_update_at_highest_level_done,
        // once at the highest level, then one level more per step
        lowest(*final(self)) == (if old(self).first_update_at_highest_level_done && lowest(*old(self)) > 0 { lowest(*old(self)) - 1 } else { lowest(*old(self)) }),
//@ end
//@ extract src/sweep/timestep_state.rs :: impl TimestepState :: fn num_allowed_levels
//@ ret r
//@ spec
    requires ok(*self),
    ensures r == nlev(*self) - lowest(*self),
//@ end
//@ extract src/sweep/timestep_state.rs :: impl TimestepState :: fn lowest_active_from_iteration
//@ ret r
//@ rewrite * `assert!($e)` => `vx_assert($e)`
//@ rewrite * `find_index_of_lowest_set_bit_in_int(iteration).unwrap_or(num_levels - 1)` => `match find_index_of_lowest_set_bit_in_int(iteration) { Some(b) => b, None => num_levels - 1 }`
//@ spec
    requires ok(*self), num_levels == nlev(*self) - lowest(*self), iteration < pow2((num_levels - 1) as nat),
    ensures r.0 < num_levels, active_at(*self, lowest(*self) + r.0, iteration as int),
//@ entry
    proof {
        assert forall|b: int| #[trigger] lowest_bit(iteration as int, b) implies b < num_levels by {
            if b >= num_levels {
                lemma_pow2_monotone((num_levels - 1) as nat, b as nat);
                lemma_small_mod(iteration as nat, pow2(b as nat));
                lemma_pow2_pos(b as nat);
                assert(iteration == 0);
                lemma_basic_div(0, pow2(b as nat) as int);
            }
        }
        assert forall|b: int| #[trigger] lowest_bit(0, b) implies false by { lemma_pow2_pos(b as nat); lemma_basic_div(0, pow2(b as nat) as int); }
        assert forall|b: int| #[trigger] lowest_bit(iteration as int, b) && 0 <= b < num_levels implies active_at(*self, nlev(*self) - 1 - b, iteration as int) by {
            lemma_active(*self, iteration as int, nlev(*self) - 1 - b);
        }
        if iteration == 0 { lemma_active(*self, 0, lowest(*self)); }
    }
//@ end
//@ extract src/sweep/timestep_state.rs :: impl TimestepState :: fn iter_levels_in_sweep_order
//@ rewrite 1 `impl Iterator<Item = TimestepLevel>` => `Vec<TimestepLevel>`
//@ rewrite * `(0..($n)).map(move |$i| { $e })` => `vx_map_range(0, $n, move |$i: usize| -> (o: TimestepLevel) requires ok(self), $i < pow2((nlev(self) - lowest(self) - 1) as nat) ensures active_at(self, o.0 as int, $i as int) { $e })`
//@ rewrite * `2usize.pow($e)` => `vx_pow2($e)`
//@ rewrite * `self.current_lowest_allowed + self.lowest_active_from_iteration($a).0` => `self.current_lowest_allowed.add(self.lowest_active_from_iteration($a).0)`
//@ ret r
//@ spec
    requires ok(self),
    ensures
        r@.len() == pow2((nlev(self) - 1 - lowest(self)) as nat),
        forall|i: int| 0 <= i < r@.len() ==> active_at(self, (#[trigger] r@[i]).0 as int, i),
//@ entry
    proof { lemma_pow2_monotone((nlev(self) - 1 - lowest(self)) as nat, 31); lemma2_to64(); }
//@ end
}
fn vx_assert(b: bool) requires b {}
// 2usize.pow(e)
#[verifier::external_body]
fn vx_pow2(e: u32) -> (r: usize)
    requires e < 64,
    ensures r == pow2(e as nat),
{ 2usize.pow(e) }

// ---------------------------------------------------------------- lemmas over the contracts
/// Within a step, a cell of level l takes part in the sweeps 0, w, 2w, ... where w is its timestep in units
/// of the smallest: its substeps follow each other without gap and there are 2^(l - low) of them.
proof fn lemma_substeps(s: TimestepState, l: int, k: int)
    requires ok(s), lowest(s) <= l < nlev(s), 0 <= k < pow2((l - lowest(s)) as nat),
    ensures
        0 <= k * pow2((nlev(s) - 1 - l) as nat) < pow2((nlev(s) - 1 - lowest(s)) as nat),
        (k * pow2((nlev(s) - 1 - l) as nat)) % (pow2((nlev(s) - 1 - l) as nat) as int) == 0,
        // together they cover the step exactly
        pow2((l - lowest(s)) as nat) * pow2((nlev(s) - 1 - l) as nat) == pow2((nlev(s) - 1 - lowest(s)) as nat),
{
    let (a, b) = ((l - lowest(s)) as nat, (nlev(s) - 1 - l) as nat);
    lemma_pow2_adds(a, b);
    lemma_pow2_pos(b);
    assert(0 <= k * pow2(b) < pow2(a) * pow2(b)) by (nonlinear_arith) requires 0 <= k < pow2(a), pow2(b) > 0;
    lemma_mod_multiples_basic(k, pow2(b) as int);
}
/// start of the n-th step (n = 0, 1, ...) in units of the smallest timestep, and the lowest level permitted in it
spec fn low_in(levels: int, n: int) -> int { if n <= 1 { levels - 1 } else if levels - n >= 0 { levels - n } else { 0 } }
spec fn start(levels: int, n: nat) -> int decreases n { if n == 0 { 0 } else { start(levels, (n - 1) as nat) + pow2((levels - 1 - low_in(levels, n - 1)) as nat) } }
/// every step starts at a multiple of its own length, so all levels permitted in it are synchronised there
proof fn lemma_synchronised(levels: int, n: nat)
    requires levels >= 1,
    ensures start(levels, n) % (pow2((levels - 1 - low_in(levels, n as int)) as nat) as int) == 0, n >= 1 && n <= levels ==> start(levels, n) == pow2((n - 1) as nat),
    decreases n,
{
    lemma2_to64();
    if n == 0 {
        lemma_small_mod(0, pow2(0));
    } else if n == 1 {
        assert(start(levels, 0) == 0);
        assert(start(levels, 1) == start(levels, 0) + pow2(0));
        assert(1int % 1 == 0);
    } else {
        lemma_synchronised(levels, (n - 1) as nat);
        let e = (levels - 1 - low_in(levels, n as int)) as nat;
        let e0 = (levels - 1 - low_in(levels, n - 1)) as nat;
        lemma_pow2_pos(e);
        if n <= levels {
            assert(e == n - 1 && e0 == n - 2);
            lemma_pow2_unfold((n - 1) as nat);
            assert(start(levels, n) == pow2((n - 1) as nat));
            lemma_mod_self_0(pow2(e) as int);
        } else {
            assert(e == e0);
            let p = pow2(e) as int;
            lemma_fundamental_div_mod(start(levels, (n - 1) as nat), p);
            let k = start(levels, (n - 1) as nat) / p;
            assert(start(levels, n) == (k + 1) * p) by (nonlinear_arith) requires start(levels, n) == start(levels, (n - 1) as nat) + p, start(levels, (n - 1) as nat) == p * k;
            lemma_mod_multiples_basic(k + 1, p);
        }
    }
}
/// the states the contracts of `new` and `advance_allowed_levels` lead to permit exactly these levels
fn vx_history(levels: usize, steps: u64)
    requires 1 <= levels < 32,
{
    let mut s = TimestepState::new(1.0, levels);
    let mut n: u64 = 0;
    assert(lowest(s) == low_in(levels as int, 0));
    while n < steps
        invariant 1 <= levels < 32, n <= steps, ok(s), nlev(s) == levels, lowest(s) == low_in(levels as int, n as int), s.first_update_at_highest_level_done == (n > 0),
        decreases steps - n,
    {
        s.advance_allowed_levels();
        n = n + 1;
        assert(lowest(s) == low_in(levels as int, n as int));
    }
}
}
fn main() {}
