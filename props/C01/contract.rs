// Executable contract of the file distribution, appended to the module so that it sees private functions.
pub mod vx {
    use super::*;
    use vxcore::*;

    fn verify(clause: &str, files: &[usize], counts: &[usize], out: &[RankAssignment], input: &dyn Fn() -> String) {
        let obs = || format!("{:?}", out);
        check(&format!("{clause}: one assignment per rank"), out.len() == counts.len(), input, obs);
        // walk through all entries of all files in order
        let (mut file, mut pos) = (0usize, 0usize);
        for (rank, a) in out.iter().enumerate() {
            let mut got: u128 = 0;
            for r in &a.regions {
                check(&format!("{clause}: region inside its file and not empty"), r.file_index < files.len() && r.start < r.end && r.end <= files[r.file_index], input, obs);
                while file < files.len() && pos == files[file] { file += 1; pos = 0; }
                check(&format!("{clause}: entries are assigned once each and in order"), r.file_index == file && r.start == pos, input, obs);
                pos = r.end;
                got += r.size() as u128;
            }
            check(&format!("{clause}: rank gets its number of entries"), got == counts[rank] as u128, input, || format!("rank {rank}: {got}, expected {}; {:?}", counts[rank], out));
        }
        while file < files.len() && pos == files[file] { file += 1; pos = 0; }
        check(&format!("{clause}: every entry is assigned"), file == files.len() && pos == 0, input, obs);
    }

    fn input_counts(total: usize, ranks: usize) -> Vec<usize> {
        let q = total / ranks;
        let mut v = vec![q; ranks];
        v[ranks - 1] = total - q * (ranks - 1);
        v
    }

    fn one_input(files: &[usize], ranks: usize) {
        let inp = || format!("input: num_entries_per_file = {:?}, num_ranks = {}", files, ranks);
        let total: usize = files.iter().sum();
        case(files.len() > 1 && ranks > 1 && total > ranks, inp);
        let out = guarded("reading: no panic", inp, || get_input_rank_assignment(files, ranks));
        verify("reading", files, &input_counts(total, ranks), &out, &inp);
        for r in [0, ranks / 2, ranks - 1] {
            let one = guarded("reading: no panic", inp, || get_rank_input_assignment_for_rank(files, ranks, r as i32));
            check("reading: the assignment of one rank is its part of the whole", one.regions == out[r].regions, inp, || format!("rank {r}: {:?}", one));
        }
    }

    fn one_output(counts: &[usize], num_files: usize) {
        let inp = || format!("output: num_entries_per_rank = {:?}, num_files = {}", counts, num_files);
        let total: usize = counts.iter().sum();
        case(counts.len() > 1 && num_files > 1 && total > num_files, inp);
        let out = guarded("writing: no panic", inp, || get_output_rank_assignment(counts, num_files));
        verify("writing", &input_counts(total, num_files), counts, &out, &inp);
        for r in [0, counts.len() / 2, counts.len() - 1] {
            let one = guarded("writing: no panic", inp, || get_rank_output_assignment_for_rank(counts, num_files, r as i32));
            check("writing: the assignment of one rank is its part of the whole", one.regions == out[r].regions, inp, || format!("rank {r}: {:?}", one));
        }
    }

    pub fn run() {
        quiet();
        // all small shapes
        let (maxlen, maxval) = if thorough() { (5, 4) } else { (4, 4) };
        for len in 1..=maxlen {
            let mut v = vec![0usize; len];
            loop {
                for n in 1..=6 { one_input(&v, n); one_output(&v, n); }
                let mut i = 0;
                while i < len && v[i] == maxval { v[i] = 0; i += 1; }
                if i == len { break; }
                v[i] += 1;
            }
        }
        // larger ones, up to the largest counts that fit
        let mut g = Rng::new(seed());
        for _ in 0..(if thorough() { 400_000 } else { 40_000 }) {
            let len = g.range(1, 12) as usize;
            let top = *g.pick(&[3u64, 10, 100, 1_000_000, (usize::MAX / 13) as u64]);
            let v: Vec<usize> = (0..len).map(|_| if g.below(4) == 0 { 0 } else { g.below(top) as usize }).collect();
            let n = g.range(1, 40) as usize;
            one_input(&v, n);
            one_output(&v, n);
        }
        one_input(&[usize::MAX], 3);
        one_input(&[usize::MAX - 5, 0, 5], 7);
        one_output(&[usize::MAX - 5, 0, 5], 7);
        done();
    }
}
