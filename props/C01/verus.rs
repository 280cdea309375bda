use vstd::prelude::*;
verus! {
type Rank = i32;
//@ include ../vx_helpers.rs

// ---------------------------------------------------------------- specification
/// number of entries in the files before file k
spec fn off(f: Seq<usize>, k: int) -> nat { vx_sum_of(f.take(k)) }
/// global number of entry `pos` of file `file`
spec fn gpos(f: Seq<usize>, file: int, pos: int) -> int { off(f, file) + pos }
spec fn region_ok(f: Seq<usize>, r: Region) -> bool {
    r.file_index < f.len() && r.start <= r.end && r.end <= f[r.file_index as int]
}
/// the regions cover the global entries [a, b) once each and in order
spec fn chain(f: Seq<usize>, rs: Seq<Region>, a: int, b: int) -> bool decreases rs.len() {
    if rs.len() == 0 { a == b } else {
        let l = rs.last();
        region_ok(f, l) && gpos(f, l.file_index as int, l.end as int) == b
        && chain(f, rs.drop_last(), a, gpos(f, l.file_index as int, l.start as int))
    }
}
spec fn pos_ok(f: Seq<usize>, p: Position) -> bool { p.file_index < f.len() && p.pos <= f[p.file_index as int] }
spec fn ppos(f: Seq<usize>, p: Position) -> int { gpos(f, p.file_index as int, p.pos as int) }
/// the property: rank r gets the global entries [c_0 + .. + c_{r-1}, c_0 + .. + c_r), and no empty region
spec fn assigns(f: Seq<usize>, c: Seq<usize>, out: Seq<RankAssignment>) -> bool {
    out.len() == c.len() && forall|r: int| 0 <= r < out.len() ==> #[trigger] rank_ok(f, c, out, r)
}
spec fn rank_ok(f: Seq<usize>, c: Seq<usize>, out: Seq<RankAssignment>, r: int) -> bool {
    chain(f, out[r].regions@, off(c, r) as int, off(c, r + 1) as int)
    && forall|i: int| 0 <= i < out[r].regions@.len() ==> #[trigger] out[r].regions@[i].start < out[r].regions@[i].end
}
spec fn covers(r: Region, file: int, i: int) -> bool { r.file_index == file && r.start <= i < r.end }

proof fn lemma_off_mono(f: Seq<usize>, i: int, j: int)
    requires 0 <= i <= j <= f.len(),
    ensures off(f, i) <= off(f, j),
    decreases j - i,
{
    if i < j { lemma_off_mono(f, i, j - 1); lemma_vx_sum_step(f, j - 1); }
}
proof fn lemma_off_full(f: Seq<usize>) ensures off(f, f.len() as int) == vx_sum_of(f) { assert(f.take(f.len() as int) =~= f); }
proof fn lemma_chain_push(f: Seq<usize>, rs: Seq<Region>, r: Region, a: int, b: int, c: int)
    requires chain(f, rs, a, b), region_ok(f, r), gpos(f, r.file_index as int, r.start as int) == b, gpos(f, r.file_index as int, r.end as int) == c,
    ensures chain(f, rs.push(r), a, c),
{
    assert(rs.push(r).drop_last() =~= rs);
}
proof fn lemma_chain_ok(f: Seq<usize>, rs: Seq<Region>, a: int, b: int, i: int)
    requires chain(f, rs, a, b), 0 <= i < rs.len(),
    ensures region_ok(f, rs[i]),
    decreases rs.len(),
{
    if i < rs.len() - 1 { lemma_chain_ok(f, rs.drop_last(), a, gpos(f, rs.last().file_index as int, rs.last().start as int), i); }
}
proof fn lemma_chain_filter(f: Seq<usize>, rs: Seq<Region>, keep: Seq<bool>, a: int, b: int)
    requires chain(f, rs, a, b), keep.len() >= rs.len(), forall|i: int| 0 <= i < rs.len() ==> keep[i] == (rs[i].end > rs[i].start),
    ensures
        chain(f, vx_filtered(rs, keep), a, b),
        forall|i: int| 0 <= i < vx_filtered(rs, keep).len() ==> #[trigger] vx_filtered(rs, keep)[i].start < vx_filtered(rs, keep)[i].end,
    decreases rs.len(),
{
    if rs.len() > 0 {
        let l = rs.last();
        let m = gpos(f, l.file_index as int, l.start as int);
        lemma_chain_filter(f, rs.drop_last(), keep, a, m);
        if keep[rs.len() - 1] {
            lemma_chain_push(f, vx_filtered(rs.drop_last(), keep), l, a, m, b);
        }
    }
}
/// What `chain` means for one entry: entry i of file k lies in exactly one of the regions if its global
/// number is in [a, b), and in none otherwise.
proof fn lemma_chain_meaning(f: Seq<usize>, rs: Seq<Region>, a: int, b: int, k: int, i: int)
    requires chain(f, rs, a, b), 0 <= k < f.len(), 0 <= i < f[k],
    ensures
        a <= b,
        (a <= gpos(f, k, i) < b) <==> exists|j: int| 0 <= j < rs.len() && covers(#[trigger] rs[j], k, i),
        forall|j1: int, j2: int| 0 <= j1 < rs.len() && 0 <= j2 < rs.len() && covers(#[trigger] rs[j1], k, i) && covers(#[trigger] rs[j2], k, i) ==> j1 == j2,
    decreases rs.len(),
{
    if rs.len() > 0 {
        let l = rs.last();
        let lf = l.file_index as int;
        let m = gpos(f, lf, l.start as int);
        let rest = rs.drop_last();
        lemma_chain_meaning(f, rest, a, m, k, i);
        assert forall|j: int| 0 <= j < rest.len() implies rs[j] == rest[j] by {}
        if covers(l, k, i) {
            assert(covers(rs[rs.len() - 1], k, i));
        }
        if a <= gpos(f, k, i) < m {
            let j = choose|j: int| 0 <= j < rest.len() && covers(#[trigger] rest[j], k, i);
            assert(covers(rs[j], k, i));
        }
        if m <= gpos(f, k, i) < b && k != lf {
            if k < lf { lemma_off_mono(f, k + 1, lf); lemma_vx_sum_step(f, k); }
            else { lemma_off_mono(f, lf + 1, k); lemma_vx_sum_step(f, lf); }
        }
        assert forall|j: int| 0 <= j < rs.len() && covers(#[trigger] rs[j], k, i) implies a <= gpos(f, k, i) < b by {
            if j < rest.len() { assert(covers(rest[j], k, i)); }
        }
        assert forall|j1: int, j2: int| 0 <= j1 < rs.len() && 0 <= j2 < rs.len() && covers(#[trigger] rs[j1], k, i) && covers(#[trigger] rs[j2], k, i) implies j1 == j2 by {
            if j1 < rest.len() { assert(covers(rest[j1], k, i)); }
            if j2 < rest.len() { assert(covers(rest[j2], k, i)); }
        }
    }
}
/// The property in terms of entries: entry i of file k belongs to exactly one rank.
proof fn lemma_partition(f: Seq<usize>, c: Seq<usize>, out: Seq<RankAssignment>, k: int, i: int)
    requires assigns(f, c, out), vx_sum_of(c) == vx_sum_of(f), 0 <= k < f.len(), 0 <= i < f[k],
    ensures
        exists|r: int| 0 <= r < out.len() && #[trigger] owns(out, r, k, i),
        forall|r1: int, r2: int| 0 <= r1 < out.len() && 0 <= r2 < out.len() && #[trigger] owns(out, r1, k, i) && #[trigger] owns(out, r2, k, i) ==> r1 == r2,
{
    let g = gpos(f, k, i);
    lemma_off_full(f);
    lemma_off_mono(f, k + 1, f.len() as int);
    lemma_vx_sum_step(f, k);
    lemma_off_full(c);
    assert(0 <= g < vx_sum_of(c));
    lemma_find(c, g, c.len() as int);
    let r = choose|r: int| 0 <= r < c.len() && off(c, r) <= g < #[trigger] off(c, r + 1);
    assert(rank_ok(f, c, out, r));
    lemma_chain_meaning(f, out[r].regions@, off(c, r) as int, off(c, r + 1) as int, k, i);
    assert(owns(out, r, k, i));
    assert forall|r2: int| 0 <= r2 < out.len() && #[trigger] owns(out, r2, k, i) implies r2 == r by {
        assert(rank_ok(f, c, out, r2));
        lemma_chain_meaning(f, out[r2].regions@, off(c, r2) as int, off(c, r2 + 1) as int, k, i);
        if r2 < r { lemma_off_mono(c, r2 + 1, r); }
        if r < r2 { lemma_off_mono(c, r + 1, r2); }
    }
}
spec fn owns(out: Seq<RankAssignment>, r: int, k: int, i: int) -> bool {
    exists|j: int| 0 <= j < out[r].regions@.len() && covers(#[trigger] out[r].regions@[j], k, i)
}
proof fn lemma_find(c: Seq<usize>, g: int, n: int)
    requires 0 <= n <= c.len(), 0 <= g < off(c, n),
    ensures exists|r: int| 0 <= r < n && off(c, r) <= g < #[trigger] off(c, r + 1),
    decreases n,
{
    if n > 0 {
        if off(c, n - 1) <= g {
            assert(off(c, n - 1) <= g < off(c, (n - 1) + 1));
        } else {
            lemma_find(c, g, n - 1);
        }
    } else {
        assert(c.take(0) =~= Seq::<usize>::empty());
    }
}

// ---------------------------------------------------------------- the code
//@ extract src/io/file_distribution.rs :: struct Position
//@ end
//@ extract src/io/file_distribution.rs :: struct Region
//@ end
//@ extract src/io/file_distribution.rs :: struct RankAssignment
//@ end

impl Region {
//@ extract src/io/file_distribution.rs :: impl Region :: fn size
//@ ret r
//@ spec
    requires self.start <= self.end,
    ensures r == self.end - self.start,
//@ end
}

//@ extract src/io/file_distribution.rs :: fn get_regions_from
//@ ret res
//@ loops 1
//@ spec
    requires
        pos_ok(num_entries_per_file@, start),
        ppos(num_entries_per_file@, start) + num_entries <= vx_sum_of(num_entries_per_file@),
        vx_sum_of(num_entries_per_file@) <= usize::MAX,
    ensures
        pos_ok(num_entries_per_file@, res.1),
        ppos(num_entries_per_file@, res.1) == ppos(num_entries_per_file@, start) + num_entries,
        chain(num_entries_per_file@, res.0@, ppos(num_entries_per_file@, start), ppos(num_entries_per_file@, res.1)),
//@ entry
    let ghost f = num_entries_per_file@;
    let ghost start0 = start;
    proof {
        lemma_off_full(f);
        lemma_vx_sum_step(f, start.file_index as int);
        lemma_off_mono(f, start.file_index as int + 1, f.len() as int);
    }
//@ loop 0 spec
        invariant
            f == num_entries_per_file@,
            vx_sum_of(f) <= usize::MAX,
            end.file_index < f.len(),
            end.file_index == start.file_index,
            start.pos <= f[end.file_index as int],
            start.pos <= end.pos,
            ppos(f, end) == ppos(f, start0) + num_entries,
            ppos(f, end) <= vx_sum_of(f),
            chain(f, regions@, ppos(f, start0), ppos(f, start)),
        decreases f.len() - end.file_index,
//@ loop 0 start
        proof {
            lemma_off_full(f);
            lemma_vx_sum_step(f, end.file_index as int);
        }
        let ghost old_regions = regions@;
        let ghost s = start;
//@ loop 0 end
        proof {
            lemma_chain_push(f, old_regions, regions@.last(), ppos(f, start0), ppos(f, s), ppos(f, start));
            assert(regions@ =~= old_regions.push(regions@.last()));
        }
//@ loop 0 after
    let ghost old_regions = regions@;
//@ before `(regions, end)`
    proof {
        lemma_chain_push(f, old_regions, regions@.last(), ppos(f, start0), ppos(f, start), ppos(f, end));
        assert(regions@ =~= old_regions.push(regions@.last()));
    }
//@ end

//@ extract src/io/file_distribution.rs :: fn get_rank_assignment
//@ ret res
//@ rewrite 1 `$i_r.into_iter().filter(|$i_p| $e).collect()` => `vx_filter($i_r, |$i_p: &Region| -> (b: bool) requires $i_p.start <= $i_p.end ensures b == ($i_p.end > $i_p.start) { $e })`
//@ loops 1
//@ spec
    requires
        num_entries_per_file@.len() > 0,
        vx_sum_of(num_entries_per_file@) <= usize::MAX,
        vx_sum_of(num_entries_per_rank@) == vx_sum_of(num_entries_per_file@),
    ensures
        assigns(num_entries_per_file@, num_entries_per_rank@, res@),
//@ entry
    let ghost f = num_entries_per_file@;
    let ghost c = num_entries_per_rank@;
    proof { assert(f.take(0) =~= Seq::<usize>::empty()); assert(c.take(0) =~= Seq::<usize>::empty()); }
//@ loop 0 binder it
//@ loop 0 spec
        invariant
            f == num_entries_per_file@,
            c == num_entries_per_rank@,
            f.len() > 0,
            vx_sum_of(f) <= usize::MAX,
            vx_sum_of(c) == vx_sum_of(f),
            pos_ok(f, start),
            ppos(f, start) == off(c, it.index@),
            assignments@.len() == it.index@,
            forall|r: int| 0 <= r < assignments@.len() ==> #[trigger] rank_ok(f, c, assignments@, r),
//@ loop 0 start
        let ghost n = it.index@;
        let ghost a0 = assignments@;
        proof { lemma_vx_sum_step(c, n); lemma_vx_sum_prefix(c, n + 1); }
//@ after `start = end;`
        let ghost full = regions@;
        proof {
            assert forall|i: int| 0 <= i < full.len() implies region_ok(f, #[trigger] full[i]) by {
                lemma_chain_ok(f, full, off(c, n) as int, off(c, n + 1) as int, i);
            }
        }
//@ before `assignments.push($x);`
        proof {
            let keep = choose|keep: Seq<bool>| #![auto] keep.len() == full.len()
                && (forall|i: int| 0 <= i < full.len() ==> keep[i] == (full[i].end > full[i].start)) && regions@ == vx_filtered(full, keep);
            lemma_chain_filter(f, full, keep, off(c, n) as int, off(c, n + 1) as int);
        }
//@ loop 0 end
        proof {
            assert forall|r: int| 0 <= r < assignments@.len() implies #[trigger] rank_ok(f, c, assignments@, r) by {
                if r < n { assert(rank_ok(f, c, a0, r)); assert(assignments@[r] == a0[r]); }
            }
        }
//@ end

/// input: all ranks but the last read total / num_ranks entries, the last one the rest
spec fn input_counts(f: Seq<usize>, num_ranks: int, c: Seq<usize>) -> bool {
    c.len() == num_ranks
    && (forall|r: int| 0 <= r < num_ranks - 1 ==> c[r] == vx_sum_of(f) / (num_ranks as nat))
    && vx_sum_of(c) == vx_sum_of(f)
}

//@ extract src/io/file_distribution.rs :: fn get_input_rank_assignment
//@ ret res
//@ rewrite 1 `$i_v.iter().sum()` => `vx_sum($i_v)`
//@ rewrite 1 `(0..($n)).map(|_| $e).collect()` => `vx_repeat(0, $n, $e)`
//@ spec
    requires
        num_entries_per_file@.len() > 0,
        num_ranks > 0,
        vx_sum_of(num_entries_per_file@) <= usize::MAX,
    ensures
        exists|c: Seq<usize>| input_counts(num_entries_per_file@, num_ranks as int, c) && #[trigger] assigns(num_entries_per_file@, c, res@),
//@ before `entries_per_rank.push($x)`
    let ghost e0 = entries_per_rank@;
    proof {
        let t = num_entries as int;
        let n = num_ranks as int;
        let q = num_entries_per_rank as int;
        lemma_vx_sum_const(e0, num_entries_per_rank);
        assert(q * (n - 1) <= t && q * (n - 1) >= 0) by (nonlinear_arith) requires q == t / n, n > 0, t >= 0;
        assert(e0.len() * num_entries_per_rank == q * (n - 1)) by (nonlinear_arith) requires e0.len() == n - 1, q == num_entries_per_rank;
    }
//@ before `get_rank_assignment($x)`
    proof {
        let c = entries_per_rank@;
        lemma_vx_sum_push(e0, c.last());
        assert(c =~= e0.push(c.last()));
        assert(input_counts(num_entries_per_file@, num_ranks as int, c));
    }
//@ end

//@ extract src/io/file_distribution.rs :: fn get_rank_input_assignment_for_rank
//@ ret res
//@ spec
    requires
        num_entries_per_file@.len() > 0,
        num_ranks > 0,
        0 <= rank < num_ranks,
        vx_sum_of(num_entries_per_file@) <= usize::MAX,
    ensures
        exists|c: Seq<usize>, out: Seq<RankAssignment>| input_counts(num_entries_per_file@, num_ranks as int, c)
            && #[trigger] assigns(num_entries_per_file@, c, out) && res == out[rank as int],
//@ end

/// output: every rank writes all of its entries; all files but the last get total / num_files
spec fn output_files(c: Seq<usize>, num_files: int, f: Seq<usize>) -> bool {
    f.len() == num_files
    && (forall|r: int| 0 <= r < num_files - 1 ==> f[r] == vx_sum_of(c) / (num_files as nat))
    && vx_sum_of(c) == vx_sum_of(f)
}

//@ extract src/io/file_distribution.rs :: fn get_output_rank_assignment
//@ ret res
//@ rewrite 1 `$i_v.iter().sum()` => `vx_sum($i_v)`
//@ rewrite 1 `$i_v.iter().sum::<usize>()` => `vx_sum(&$i_v)`
//@ rewrite 1 `(0..$n).map(|_| $e).collect()` => `vx_repeat(0, $n, $e)`
//@ spec
    requires
        num_desired_files > 0,
        vx_sum_of(num_entries_per_rank@) <= usize::MAX,
    ensures
        exists|f: Seq<usize>| output_files(num_entries_per_rank@, num_desired_files as int, f) && #[trigger] assigns(f, num_entries_per_rank@, res@),
//@ before `num_entries_per_file.push($x)`
    let ghost e0 = num_entries_per_file@;
    proof {
        let t = total_num_entries as int;
        let n = num_desired_files as int;
        let q = t / n;
        lemma_vx_sum_const(e0, q as usize);
        assert(q * (n - 1) <= t && q * (n - 1) >= 0 && q >= 0 && q <= t) by (nonlinear_arith) requires q == t / n, n > 0, t >= 0;
        assert(e0.len() * q == q * (n - 1)) by (nonlinear_arith) requires e0.len() == n - 1;
    }
//@ before `get_rank_assignment($x)`
    proof {
        let f = num_entries_per_file@;
        lemma_vx_sum_push(e0, f.last());
        assert(f =~= e0.push(f.last()));
        assert(output_files(num_entries_per_rank@, num_desired_files as int, f));
    }
//@ end

//@ extract src/io/file_distribution.rs :: fn get_rank_output_assignment_for_rank
//@ ret res
//@ spec
    requires
        num_desired_files > 0,
        0 <= rank < num_entries_per_rank@.len(),
        vx_sum_of(num_entries_per_rank@) <= usize::MAX,
    ensures
        exists|f: Seq<usize>, out: Seq<RankAssignment>| output_files(num_entries_per_rank@, num_desired_files as int, f)
            && #[trigger] assigns(f, num_entries_per_rank@, out) && res == out[rank as int],
//@ end
}
fn main() {}
