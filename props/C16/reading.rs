// Executable contract of reading in chunks: the real Reader over a stand-in for HDF5.
pub mod vx {
    use super::*;
    use crate::io::unit_reader::IdReader;
    use crate::io::DatasetDescriptor;
    use std::sync::atomic::{AtomicUsize, Ordering};
    use std::sync::Arc;
    use vxcore::*;

    #[derive(Clone, Debug, PartialEq)]
    struct V(usize);
    impl ToDataset for V { fn dimension() -> crate::units::Dimension { crate::units::NONE } fn convert_base_units(self, factor: f64) -> Self { assert_eq!(factor, 1.0); self } }
    impl Named for V { fn name() -> &'static str { "v" } }
    #[derive(Clone, Debug, PartialEq)]
    struct W(usize, f64, f64);
    impl ToDataset for W { fn dimension() -> crate::units::Dimension { crate::units::NONE } fn convert_base_units(self, _: f64) -> Self { self } }
    impl Named for W { fn name() -> &'static str { "w" } }

    fn sizes(g: &mut Rng) {
        let mut one = |start: usize, len: usize, chunk: usize| {
            let region = Region { file_index: 0, start, end: start + len };
            let inp = || format!("entries {start}..{} in chunks of {chunk}", start + len);
            case(len > 0, inp);
            let v = guarded("chunks can be computed", inp, || get_chunk_sizes(&region, chunk));
            let mut at = start;
            for r in &v {
                check("chunks follow each other", r.start == at, inp, || format!("{v:?}"));
                check("no chunk is empty or larger than the limit", r.start < r.end && r.end - r.start <= chunk, inp, || format!("{v:?}"));
                at = r.end;
            }
            check("chunks end with the last entry", at == start + len, inp, || format!("{v:?}"));
        };
        for start in [0, 1, 7] { for len in 0..60 { for chunk in 1..64 { one(start, len, chunk); } } }
        for _ in 0..3000 {
            let chunk = (g.next() as usize >> (4 + g.below(60))).max(1);
            let len = match g.below(3) { 0 => chunk * g.below(6) as usize, 1 => chunk * (1 + g.below(6) as usize) - 1, _ => (chunk / 2) * g.below(9) as usize + 1 };
            one(g.next() as usize >> (5 + g.below(59)), len, chunk);
        }
    }

    static NEXT: AtomicUsize = AtomicUsize::new(0);
    fn reading(g: &mut Rng, ranks: usize) {
        let nfiles = 1 + g.below(4) as usize;
        let style = g.below(3);
        let lens: Vec<usize> = (0..nfiles).map(|_| match style { 0 => g.below(3) as usize, 1 => g.below(20) as usize, _ => 4 * g.below(5) as usize }).collect();
        let chunk = 1 + g.below(9) as usize;
        let two = g.bool();
        let how = g.below(3);
        let inp = || format!("{ranks} ranks, files with {lens:?} entries, chunks of {chunk}, rows {two}, read {}", ["in chunks", "by region", "whole by every rank"][how as usize]);
        case(ranks > 1 && nfiles > 1, inp);
        let id = NEXT.fetch_add(1, Ordering::Relaxed);
        let paths: Arc<Vec<PathBuf>> = Arc::new((0..nfiles).map(|i| PathBuf::from(format!("/vx/{id}/{i}.hdf5"))).collect());
        let mut next = 0;
        for (p, n) in paths.iter().zip(&lens) {
            let f = File::create(p).unwrap();
            if *n == 0 && g.bool() { continue; } // a file without the dataset
            let v = f.new_dataset::<V>().shape([*n]).create("v").unwrap();
            let w = f.new_dataset::<f64>().shape([*n, 3]).create("w").unwrap();
            v.write_slice(&(next..next + n).map(V).collect::<Vec<_>>(), 0..*n).unwrap();
            w.vx_set_rows((next..next + n).map(|i| vec![i as f64, i as f64 + 0.25, i as f64 + 0.5]).collect());
            next += n;
        }
        let p = paths.clone();
        let (_, res) = mpi::simulate(ranks, move |_| {
            let r = if how == 2 { Reader::full(p.iter()) } else { Reader::split_between_ranks(p.iter()) };
            let d = |n: &str| DatasetDescriptor { dataset_name: n.into(), unit_reader: Box::new(IdReader) };
            let n = r.get_num_entities(if two { "w" } else { "v" });
            let got: Vec<usize> = if two {
                let d = InputDatasetDescriptor::<W>::new(d("w"), DatasetShape::TwoDimensional(|x| W(x[0] as usize, x[1], x[2])));
                let v: Vec<W> = if how == 0 { r.read_dataset_chunked(d, chunk).collect() } else { r.read_dataset(d).collect() };
                for w in &v { assert!(w.1 == w.0 as f64 + 0.25 && w.2 == w.0 as f64 + 0.5, "row {w:?} is not a row of the file"); }
                v.into_iter().map(|w| w.0).collect()
            } else {
                let d = InputDatasetDescriptor::<V>::new(d("v"), DatasetShape::OneDimensional);
                let v: Vec<V> = if how == 0 { r.read_dataset_chunked(d, chunk).collect() } else { r.read_dataset(d).collect() };
                v.into_iter().map(|v| v.0).collect()
            };
            assert_eq!(n, got.len(), "number of entities announced and read");
            got
        });
        let mut all = vec![];
        for (r, x) in res.into_iter().enumerate() {
            match x {
                Ok(v) => { if how == 2 { check("a full reader reads every entry once, in order", v == (0..next).collect::<Vec<_>>(), inp, || format!("rank {r}: {v:?}")) } else { all.extend(v) } }
                Err(e) => violated("every rank can read its part", &inp(), &format!("rank {r}: {e}")),
            }
        }
        if how != 2 { check("all entries of all files are read exactly once, in order, by the ranks together", all == (0..next).collect::<Vec<_>>(), inp, || format!("{all:?}")); }
        if how == 0 {
            for p in paths.iter() {
                if let Ok(d) = File::open(p).unwrap().dataset(if two { "w" } else { "v" }) {
                    for s in d.vx_reads() { check("no read is empty or larger than the limit", s.len() <= chunk && !s.is_empty(), inp, || format!("read {s:?}")) }
                }
            }
        }
    }

    pub fn run() {
        quiet();
        let mut g = Rng::new(seed());
        sizes(&mut g);
        let m = if thorough() { 20 } else { 1 };
        for n in 1..=5 { for _ in 0..80 * m { reading(&mut g, n); } }
        hdf5::vx_clear();
        done();
    }
}
