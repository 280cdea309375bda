SEEDS = []
def seed(**k): SEEDS.append(k)
FD = "src/io/file_distribution.rs"
PH = "src/peano_hilbert.rs"
DR = "src/communication/data_by_rank.rs"

seed(id="C01-a", property="C01", needs="a region of exactly one entry: a rank boundary one entry away from a file boundary",
  breaks="regions of one entry are dropped, so those entries are read by nobody",
  edits=[(FD, ".filter(|region| region.size() > 0)", ".filter(|region| region.size() > 1)")],
  demo=(FD, '''    #[test]
    fn one_entry_region() {
        let out = get_input_rank_assignment(&[4, 1, 4], 3);
        let total: usize = out.iter().flat_map(|a| a.regions.iter()).map(|r| r.end - r.start).sum();
        assert_eq!(total, 9);
    }'''))
seed(id="C01-b", property="C01", needs="a rank without entries between ranks that have some",
  breaks="a rank with nothing to write rewinds the position in the file: the next rank overwrites entries of the ranks before it",
  edits=[(FD, "        return (regions, start);", "        start.pos = 0;\n        return (regions, start);")],
  demo=(FD, '''    #[test]
    fn empty_rank_in_the_middle() {
        let out = get_output_rank_assignment(&[3, 0, 2], 1);
        assert_eq!(out[2].regions, vec![Region { file_index: 0, start: 3, end: 5 }]);
    }'''))
seed(id="C02-a", property="C02", needs="a 3D position whose path through the curve visits one particular state and octant",
  breaks="the 3D curve jumps: consecutive keys belong to positions that are not neighbours",
  edits=[(PH, "    [16, 36, 20, 36, 16, 2, 20, 10],", "    [16, 36, 20, 36, 16, 10, 20, 2],")],
  demo=(PH, '''    #[test]
    fn consecutive_keys_are_neighbours() {
        let bits = NUM_BITS_PER_DIMENSION_3D;
        for level in 1..=4u32 {
            let n = 1u128 << level;
            let shift = bits - level;
            let mut v = vec![];
            for x in 0..n { for y in 0..n { for z in 0..n {
                v.push((PeanoKey3d::from_integer_pos((x << shift, y << shift, z << shift)).0 >> (3 * shift), x, y, z));
            }}}
            v.sort();
            for (i, w) in v.windows(2).enumerate() {
                assert_eq!(w[0].0, i as u128);
                let d = w[0].1.abs_diff(w[1].1) + w[0].2.abs_diff(w[1].2) + w[0].3.abs_diff(w[1].3);
                assert_eq!(d, 1);
            }
        }
    }'''))
seed(id="C02-b", property="C02", needs="a point on the upper border of the extent",
  breaks="the extent is not padded at its upper end, so points there fall off the grid and get the key of an unrelated place",
  edits=[(PH, """    pub fn from_point_and_min_max(pos: DVec3, min: DVec3, max: DVec3) -> Self {
        let min_padded = min - (max - min) * 0.001;
        let max_padded = max + (max - min) * 0.001;""", """    pub fn from_point_and_min_max(pos: DVec3, min: DVec3, max: DVec3) -> Self {
        let min_padded = min - (max - min) * 0.001;
        let max_padded = max;""")],
  demo=(PH, '''    #[test]
    fn border_points_are_on_the_grid() {
        let (lo, hi) = (DVec3::new(0.0, 0.0, 0.0), DVec3::new(1.0, 1.0, 1.0));
        let at = |x: f64| PeanoKey3d::from_point_and_min_max(DVec3::new(x, 0.3, 0.3), lo, hi).0;
        // the border belongs to the cell of its neighbourhood: nearly all leading digits agree
        assert_eq!(at(1.0) >> 100, at(1.0 - 1e-12) >> 100);
    }'''))
seed(id="C03-a", property="C03", needs="draining a container with a hole, that is on any rank but the last",
  breaks="drained values are labelled with their position, not their rank, so they go to the wrong rank",
  edits=[(DR, """            .drain(..)
            .enumerate()
            .filter_map(|(rank, t)| t.map(|t| (rank as Rank, t)))""", """            .drain(..)
            .flatten()
            .enumerate()
            .map(|(rank, t)| (rank as Rank, t))""")],
  demo=(DR, '''    #[test]
    fn drain_keeps_ranks() {
        let mut d: DataByRank<i32> = DataByRank::from_size_and_rank(4, 1);
        d.insert(3, 30);
        let v: Vec<_> = d.drain_all().collect();
        assert_eq!(v, vec![(0, 0), (2, 0), (3, 30)]);
    }'''))
seed(id="C03-b", property="C03", needs="storing a second value for the same rank",
  breaks="a rank keeps its first value; later insertions are silently dropped",
  edits=[(DR, "        self.0[rank] = Some(data);", "        self.0[rank].get_or_insert(data);")],
  demo=(DR, '''    #[test]
    fn last_value_wins() {
        let mut d: DataByRank<i32> = DataByRank::empty();
        d.insert(2, 1);
        d.insert(2, 5);
        assert_eq!(d[2], 5);
    }'''))

U = "src/voronoi/math/utils.rs"
IA = "src/voronoi/indexed_arena.rs"
DI = "src/sweep/direction/mod.rs"
seed(id="C05-a", property="C05", needs="a nearly singular matrix with one row of much larger entries",
  breaks="the float result is compared with the entries of the last row only, so rounding errors of the large row are taken for the determinant",
  edits=[(U, "    for row in m.iter() {\n        for entry in row.iter() {\n            PrecisionError::check(", "    for row in m.iter().skip(D / 2) {\n        for entry in row.iter() {\n            PrecisionError::check(")],
  demo=(U, '''    #[test]
    fn large_row() {
        let mut s = 12345u64;
        let mut rnd = move || { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 11) as f64 / (1u64 << 53) as f64 };
        for _ in 0..3000 {
            let (a, b, c, d) = (rnd(), rnd(), rnd(), rnd());
            // third row = sum of the others up to rounding, the first row large
            let r0 = [a * 1e9, b * 1e9, c * 1e9];
            let r1 = [d, rnd(), rnd()];
            let r2 = [r0[0] * 1e-9 + r1[0], r0[1] * 1e-9 + r1[1], r0[2] * 1e-9 + r1[2]];
            let m = [r0, r1, r2];
            assert_eq!(determinant3x3_sign(m), Sign::of(determinant3x3(lift_matrix(m))));
        }
    }'''))
seed(id="C05-b", property="C05", needs="the product of a zero sign (a point exactly on a face) with another sign",
  breaks="zero times a sign is that sign: points on a face are taken to be on one side of it",
  edits=[(U, "            Sign::Zero => Sign::Zero,\n        }\n    }\n}", "            Sign::Zero => rhs,\n        }\n    }\n}")],
  demo=(U, '''    #[test]
    fn product_with_zero() {
        assert_eq!(Sign::Zero * Sign::Negative, Sign::Zero);
        assert_eq!(Sign::Zero * Sign::Positive, Sign::Zero);
    }'''))
seed(id="C06-a", property="C06", needs="a system whose largest first coefficient is in the third row while the first row's is not smaller than the second's",
  breaks="the first row is forgotten and the second used twice: a wrong solution or a refusal of a regular system",
  edits=[(U, "(ix, iy, iz) = (2, 0, 1)", "(ix, iy, iz) = (2, iy, 1)")],
  demo=(U, '''    #[test]
    fn pivot_in_third_row() {
        let x = solve_3x4_system_of_equations_error([[2.0, 1.0, 0.0, 3.0], [1.0, 3.0, 1.0, 5.0], [4.0, 1.0, 5.0, 10.0]]).expect("regular");
        for v in x { assert!((v - 1.0).abs() < 1e-12, "{x:?}"); }
    }'''))
seed(id="C06-b", property="C06", needs="a column whose entries are all negative or zero when its turn comes",
  breaks="the pivot is the largest entry with its sign, so zero is preferred to negative numbers and a regular system is taken for singular",
  edits=[(U, ".max_by(|i, j| a[*i][k].abs().partial_cmp(&a[*j][k].abs()).unwrap())", ".max_by(|i, j| a[*i][k].partial_cmp(&a[*j][k]).unwrap())")],
  demo=(U, '''    #[test]
    fn negative_pivots() {
        let x = solve_system_of_equations([[0.0, 1.0, 2.0], [-1.0, 0.0, -1.0]]);
        assert_eq!(x, [1.0, 2.0]);
    }'''))
seed(id="C07-a", property="C07", needs="a direction with components in y and z (the tests only rotate the x axis)",
  breaks="the columns of the matrix are mixed up in the last component: directions lose their length",
  edits=[(DI, "vec.z = x * matrix[2][0] + y * matrix[2][1] + z * matrix[2][2];", "vec.z = x * matrix[2][0] + y * matrix[2][2] + z * matrix[2][1];")],
  demo=(DI, '''    #[test]
    fn lengths_are_kept() {
        let m = get_rotation_matrix(MVec::new(0.0, 0.6, 0.8), 0.5);
        let mut v = MVec::new(0.0, 1.0, 0.0);
        multiply_by_matrix(&mut v, &m);
        assert!((v.length() - 1.0).abs() < 1e-12);
    }'''))
seed(id="C07-b", property="C07", needs="a comparison of the direction of rotation or of the axis (length and determinant are kept)",
  breaks="the rotation is about the axis mirrored in y: it does not leave its axis fixed",
  edits=[(DI, "    let (x, y, z) = (axis.x, axis.y, axis.z);\n    let cos", "    let (x, y, z) = (axis.x, axis.z, axis.y);\n    let cos")],
  demo=(DI, '''    #[test]
    fn axis_is_fixed() {
        let a = MVec::new(0.0, 0.6, 0.8);
        let m = get_rotation_matrix(a, 0.5);
        let mut v = a;
        multiply_by_matrix(&mut v, &m);
        assert!((v - a).length() < 1e-12);
    }'''))
seed(id="C22-a", property="C22", needs="a removal, a later insertion that reuses the slot, then a lookup with the old identifier",
  breaks="an identifier of a removed element yields the element that took its place",
  edits=[(IA, "        self.arena.get(id.into())", "        self.arena\n            .get_unknown_gen(id.into().into_raw_parts().0)\n            .map(|(t, _)| t)")],
  demo=(IA, '''    #[test]
    fn stale_identifier() {
        let mut a: IndexedArena<Index, i32> = IndexedArena::default();
        let i = a.insert(1);
        a.remove(i);
        a.insert(2);
        assert_eq!(a.get(i), None);
    }'''))
seed(id="C22-b", property="C22", needs="a removal in the middle before iterating",
  breaks="identifiers are numbered by position among the live elements, so after a removal they name other elements",
  edits=[(IA, "        self.arena.iter().map(|(idx, t)| (idx.into(), t))", "        self.arena\n            .iter()\n            .enumerate()\n            .map(|(i, (idx, t))| (Index::from_raw_parts(i, idx.into_raw_parts().1).into(), t))")],
  demo=(IA, '''    #[test]
    fn iterated_identifiers() {
        let mut a: IndexedArena<Index, i32> = IndexedArena::default();
        let ids: Vec<Index> = (0..3).map(|x| a.insert(x)).collect();
        a.remove(ids[1]);
        let v: Vec<(Index, i32)> = a.iter().map(|(i, x)| (i, *x)).collect();
        assert_eq!(v, vec![(ids[0], 0), (ids[2], 2)]);
    }'''))

EX = "src/extent.rs"
seed(id="C08-a", property="C08", needs="a set of points given to from_points whose maximum is not the last point",
  breaks="the upper corner is that of the last two points only, so earlier points are outside their box",
  edits=[(EX, "|p1, p2| P::max(p1, p2))", "|p1, p2| P::max(p2, p1 - p1 + p2))")],
  demo=(EX, '''    #[test]
    fn all_points_inside() {
        let e = Extent::from_points([2.0f64, 5.0, 1.0, 3.0].into_iter()).unwrap();
        assert_eq!((e.min, e.max), (1.0, 5.0));
    }'''))
seed(id="C08-b", property="C08", needs="a box that is not centered on the origin",
  breaks="the enlarged box is the box scaled about the origin: periodic images of an off-center box lie outside",
  edits=[(EX, "        Self::from_min_max(self.min - dist, self.max + dist)", "        let half = dist + dist / 2.0;\n        Self::from_min_max(self.center - half - dist, self.center + half)")],
  demo=(EX, '''    #[test]
    fn images_inside() {
        let e = Extent::from_min_max(4.0f64, 6.0).including_periodic_images();
        assert_eq!((e.min, e.max), (2.0, 8.0));
    }'''))

CO = "src/communication/communicated_option.rs"
seed(id="C17-a", property="C17", needs="a missing value that is cloned before it is unpacked",
  breaks="a clone of a missing value claims to be present: uninitialised memory is read as the value",
  edits=[(CO, "        Self {\n            valid: self.valid,\n            data,\n        }", "        Self { valid: true, data }")],
  demo=(CO, '''    #[test]
    fn cloned_missing_value() {
        let x: CommunicatedOption<i32> = None.into();
        let y: Option<i32> = x.clone().into();
        assert_eq!(y, None);
    }'''))
seed(id="C17-b", property="C17", needs="a 3D key above 2^64, sent to a rank",
  breaks="only half of the bytes of a 3D key are sent: the upper half is lost for all but the smallest keys",
  edits=[(PH, "UserDatatype::contiguous(2, &u64::equivalent_datatype())", "UserDatatype::contiguous(1, &u64::equivalent_datatype())")],
  demo=(PH, '''    use crate::communication::MpiWorld;
    #[test]
    fn key_arrives() {
        let mut w = MpiWorld::<PeanoKey3d>::new();
        let keys = [PeanoKey3d(u128::MAX / 3), PeanoKey3d(1 << 100)];
        let got = mpi::request::scope(|scope| {
            let _guard = w.immediate_send_vec_wait_guard(scope, 0, &keys);
            w.receive_vec(0)
        });
        assert_eq!(got.iter().map(|k| k.0).collect::<Vec<_>>(), keys.iter().map(|k| k.0).collect::<Vec<_>>());
    }'''))

EC = "src/communication/exchange_communicator.rs"
MW = "src/communication/mpi_world.rs"
COMMUNICATION = """mkdir -p "$T/crate/src/communication" && for f in data_by_rank sized_communicator identified mpi_world exchange_communicator; do cp "/repo/src/communication/$f.rs" "$T/crate/src/communication/" || exit 3; done"""
COMM_FILES = {
  "Cargo.toml": '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nmpi = { path = "shims/mpi" }\nbevy_ecs = { path = "shims/bevy_ecs" }\nvxderive = { path = "shims/vxderive" }\nderive_more = "0.99.17"\nlazy_static = "1.4.0"\n[workspace]\n',
  "src/communication/mod.rs": """pub mod data_by_rank; pub mod sized_communicator; pub mod identified; pub mod mpi_world; pub mod exchange_communicator;
pub use data_by_rank::DataByRank; pub use sized_communicator::SizedCommunicator; pub use identified::Identified; pub use mpi_world::MpiWorld;
pub mod communicator { pub type Communicator<T> = super::mpi_world::MpiWorld<T>; }
pub type Rank = mpi::Rank;
"""}
SHIMS = ["mpi", "bevy_ecs", "vxderive"]
seed(id="C04-a", property="C04", needs="two ranks, one of which has an empty list addressed to the other",
  breaks="empty lists are marked as sent but never sent, so the rank that waits for one waits for ever",
  edits=[(EC, "                self.pending_data[rank] = true;\n                let guard =", "                self.pending_data[rank] = true;\n                if items.as_ref().is_empty() {\n                    continue;\n                }\n                let guard =")],
  crate=dict(prepare=COMMUNICATION, shims=SHIMS, files=dict(COMM_FILES, **{"src/main.rs": """mod communication;
use communication::*;
fn main() {
    // three ranks (threads over a stand-in for MPI); rank 1 has an empty list for rank 0
    let (_, res) = mpi::simulate(3, |me| {
        let mut c = exchange_communicator::ExchangeCommunicator::<u32>::new();
        let data: DataByRank<Vec<u32>> = (0..3).filter(|r| *r != me).map(|r| (r, vec![me as u32; ((me + r + 1) % 2) as usize])).collect();
        c.exchange_all(data).into_iter().collect::<Vec<_>>()
    });
    for (me, got) in res.into_iter().enumerate() {
        let want: Vec<(i32, Vec<u32>)> = (0..3).filter(|r| *r != me as i32).map(|r| (r, vec![r as u32; ((me as i32 + r + 1) % 2) as usize])).collect();
        assert_eq!(got.unwrap(), want);
    }
}
"""})))
seed(id="C04-b", property="C04", needs="a message of one type on its way when another type is polled for",
  breaks="polling takes any message of the rank, so messages of different types mix",
  edits=[(MW, "process.immediate_matched_probe_with_tag(self.tag);", "process.immediate_matched_probe();")],
  demo=(MW, '''    use mpi::request::scope;
    #[test]
    fn types_do_not_mix() {
        let mut a = MpiWorld::<i32>::new_custom_tag(4001);
        let mut b = MpiWorld::<i32>::new_custom_tag(4002);
        let (x, y) = ([1], [2]);
        let (got_b, got_a) = scope(|scope| {
            let _a = a.immediate_send_vec_wait_guard(scope, 0, &x);
            let _b = b.immediate_send_vec_wait_guard(scope, 0, &y);
            let got_b = loop {
                if let Some(v) = b.try_receive_vec(0) {
                    break v;
                }
            };
            let got_a = loop {
                if let Some(v) = a.try_receive_vec(0) {
                    break v;
                }
            };
            (got_b, got_a)
        });
        assert_eq!((got_a, got_b), (vec![1], vec![2]));
    }'''))
seed(id="C16-a", property="C16", needs="a number of items one above a multiple of the limit",
  breaks="the last round is missing when it would hold a single item",
  edits=[(EC, "if x.rem_euclid(y) > 0", "if x.rem_euclid(y) > 1")],
  demo=(EC, '''    #[test]
    fn last_round() {
        let items = [1, 2, 3, 4, 5, 6, 7];
        let n: usize = divide_into_chunks_with_same_num_globally(&items, 3).map(|c| c.len()).sum();
        assert_eq!(n, 7);
    }'''))
IN = "src/io/input/mod.rs"
seed(id="C16-b", property="C16", needs="a region that starts further into the file than one chunk (the second rank's)",
  breaks="chunks start at most one chunk into the file: entries of earlier ranks are read again and the region's own are missing",
  edits=[(IN, "            let start = region.start + i * chunk_size;", "            let start = region.start.min(chunk_size) + i * chunk_size;")],
  crate=dict(prepare="""sed -n '/^fn get_chunk_sizes/,/^}/p' /repo/src/io/input/mod.rs >> "$T/crate/src/main.rs"; cp /repo/src/io/file_distribution.rs "$T/crate/src/" || exit 3""", shims=SHIMS,
  files={"Cargo.toml": '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nbevy_ecs = { path = "shims/bevy_ecs" }\n[workspace]\n',
  "src/main.rs": """mod communication { pub type Rank = i32; }
mod file_distribution;
use file_distribution::Region;
use std::ops::Range;
fn main() {
    let v = get_chunk_sizes(&Region { file_index: 0, start: 250, end: 420 }, 100);
    assert_eq!(v, vec![250..350, 350..420]);
}
"""}))
CD = "src/sweep/count_by_dir.rs"
seed(id="C12-a", property="C12", needs="a direction whose cells are all solved while others remain",
  breaks="the remaining work is taken from the first direction alone, so the sweep ends when that one is done",
  edits=[(CD, "        self.count_by_dir.iter().sum()", "        self.count_by_dir.first().map_or(0, |count| count * self.count_by_dir.len())")],
  demo=(CD, '''    #[test]
    fn remaining_work() {
        let mut c = CountByDir::new(3, 1);
        c.reduce(DirectionIndex(0));
        assert_eq!(c.total(), 2);
    }'''))
AL = "src/sweep/active_list.rs"
seed(id="C12-b", property="C12", needs="cells that change their levels between two steps (two sites that each look fine: binning is skipped while valid, and the mutable iteration no longer invalidates)",
  breaks="after the levels of the sites changed, the old bins are used: cells that should be swept are left out",
  edits=[(AL, "        self.valid = false;\n        self.levels\n            .iter_mut()", "        self.levels\n            .iter_mut()"),
         (AL, "        let mut bins = vec![];\n", "        if self.valid {\n            return;\n        }\n        let mut bins = vec![];\n")],
  crate=dict(prepare="""mkdir -p "$T/crate/src/sweep" && cp /repo/src/sweep/active_list.rs "$T/crate/src/sweep/" || exit 3""",
  files={"Cargo.toml": '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\n[workspace]\n',
  "src/main.rs": """#![allow(dead_code)]
mod communication { pub type Rank = i32; }
mod hash_map { pub use std::collections::HashMap; }
mod particle { #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)] pub struct ParticleId { pub index: u32, pub rank: i32 } }
mod sweep {
    pub mod timestep_level {
        #[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Copy, Hash)]
        pub struct TimestepLevel(pub usize);
        impl TimestepLevel { pub fn is_active(&self, c: TimestepLevel) -> bool { *self >= c } }
    }
    pub mod active_list;
}
use sweep::{active_list::ActiveList, timestep_level::TimestepLevel};
use particle::ParticleId;
fn main() {
    let map = (0..3).map(|i| (ParticleId { index: i, rank: 0 }, i)).collect();
    let mut l = ActiveList::new(map, 3, TimestepLevel(0));
    for (id, level, _) in l.enumerate_with_levels_mut() { *level = TimestepLevel(id.index as usize) }
    l.update_bins();
    let act: Vec<u32> = l.enumerate_active(TimestepLevel(1)).map(|(id, _)| id.index).collect();
    assert_eq!(act, [1, 2]);
}
"""}))
TL = "src/sweep/timestep_level.rs"
TS = "src/sweep/timestep_state.rs"
TIMESTEP = dict(prepare="""mkdir -p "$T/crate/src/sweep" && cp /repo/src/sweep/timestep_level.rs /repo/src/sweep/timestep_state.rs "$T/crate/src/sweep/" || exit 3""", shims=["mpi", "vxderive"])
def timestep(main):
  return dict(TIMESTEP, files={"Cargo.toml": '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nmpi = { path = "shims/mpi" }\nvxderive = { path = "shims/vxderive" }\n[workspace]\n',
  "src/main.rs": """#![allow(dead_code)]
mod units {
    pub mod helpers { pub type Float = f64; }
    // a time and a plain number, as far as the two files need them
    #[derive(Clone, Copy, Debug, PartialEq, PartialOrd)] pub struct Time(pub f64);
    #[derive(Clone, Copy, Debug, PartialEq, PartialOrd)] pub struct Number(pub f64);
    impl Time { pub fn seconds(x: f64) -> Self { Time(x) } pub fn megayears(x: f64) -> Self { Time(x) } pub fn in_seconds(self) -> f64 { self.0 } }
    impl std::ops::Div for Time { type Output = Number; fn div(self, o: Time) -> Number { Number(self.0 / o.0) } }
    impl std::ops::Mul<f64> for Time { type Output = Time; fn mul(self, o: f64) -> Time { Time(self.0 * o) } }
    impl Number { pub fn log2(self) -> Number { Number(self.0.log2()) } pub fn ceil(self) -> Number { Number(self.0.ceil()) } pub fn value(self) -> f64 { self.0 } }
    impl std::ops::Sub<f64> for Number { type Output = Number; fn sub(self, o: f64) -> Number { Number(self.0 - o) } }
}
mod sweep { pub mod timestep_level; pub mod timestep_state; }
use sweep::{timestep_level::TimestepLevel, timestep_state::TimestepState};
use units::Time;
fn main() {
""" + main + "}\n"})
seed(id="C09-a", property="C09", needs="a cell that asks for a longer timestep than is permitted yet, in one of the first steps",
  breaks="cells get levels below the lowest permitted one, so they are advanced beyond the end of the step",
  edits=[(TS, "        if level < self.current_lowest_allowed {\n            level = self.current_lowest_allowed;\n        }", "        if level > self.current_lowest_allowed && !self.first_update_at_highest_level_done {\n            level = self.current_lowest_allowed;\n        }")],
  crate=timestep("""    let mut s = TimestepState::new(Time::seconds(1.0), 4);
    for low in [3, 3, 2, 1, 0] {
        assert_eq!(s.get_desired_level_from_desired_timestep(Time::seconds(100.0)), TimestepLevel(low));
        s.advance_allowed_levels();
    }
"""))
seed(id="C09-b", property="C09", needs="a desired timestep just below that of a level",
  breaks="a level is assigned whose timestep is longer than the desired one",
  edits=[(TL, "ratio.log2().ceil().value() as usize", "(ratio.log2() - 1e-6).ceil().value() as usize")],
  crate=timestep("""    for l in 0..6 {
        let step = 0.5f64.powi(l);
        let desired = step * (1.0 - 1e-7);
        let got = TimestepLevel::from_max_timestep_and_desired_timestep(8, Time::seconds(1.0), Time::seconds(desired)).to_timestep(Time::seconds(1.0)).in_seconds();
        assert!(got <= desired, "{got} for {desired}");
    }
"""))
DE = "src/domain/decomposition.rs"
def decomposition(main):
  return dict(prepare="""mkdir -p "$T/crate/src/domain" "$T/crate/src/communication" && sed '/^#\\[cfg(test)\\]$/,$d' /repo/src/domain/decomposition.rs > "$T/crate/src/domain/decomposition.rs" && cd /repo/src/communication && cp data_by_rank.rs sized_communicator.rs identified.rs mpi_world.rs "$T/crate/src/communication/" || exit 3""", shims=["mpi", "bevy_ecs", "vxderive"],
  files={"Cargo.toml": '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nmpi = { path = "shims/mpi" }\nbevy_ecs = { path = "shims/bevy_ecs" }\nvxderive = { path = "shims/vxderive" }\nderive_more = "0.99"\nlazy_static = "1"\nlog = "0.4"\n[workspace]\n',
  "src/main.rs": """#![allow(dead_code, unused_imports)]
mod communication {
    pub mod data_by_rank; pub mod sized_communicator; pub mod identified; pub mod mpi_world;
    pub use data_by_rank::DataByRank; pub use sized_communicator::SizedCommunicator; pub use identified::Identified; pub use mpi_world::MpiWorld;
    pub mod communicator { pub type Communicator<T> = super::mpi_world::MpiWorld<T>; }
    pub type Rank = mpi::Rank;
}
mod particle { #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct ParticleId { pub index: u32, pub rank: i32 } }
mod extent { #[derive(Clone)] pub struct Extent<P> { pub min: P, pub max: P } impl<P: Copy> Extent<P> { pub fn center(&self) -> P { self.min } pub fn side_lengths(&self) -> P { self.max } } }
mod parameters { pub struct SimulationBox; }
mod quadtree { pub mod radius_search { pub fn bounding_boxes_overlap_periodic<A, B>(_: &crate::parameters::SimulationBox, _: &A, _: &A, _: &B, _: &B) -> bool { true } } }
mod units { #[derive(Clone, Copy)] pub struct MVec; #[derive(Clone, Copy)] pub struct VecLength; impl VecLength { pub fn new_unchecked(_: MVec) -> Self { VecLength } } }
mod domain {
    pub mod decomposition;
    pub mod key {
        pub trait Key: PartialOrd + Ord + Copy + Clone + std::fmt::Debug + mpi::traits::Equivalence { const MAX_DEPTH: usize; fn middle(a: Self, b: Self) -> Self; fn next(self) -> Self; }
        pub trait IntoKey: Sized { type Key: Key; fn into_key(self, e: &crate::extent::Extent<Self>) -> Self::Key; }
        impl Key for u64 { const MAX_DEPTH: usize = 64; fn middle(a: u64, b: u64) -> u64 { a + (b - a) / 2 } fn next(self) -> u64 { self.saturating_add(1) } }
    }
    pub use key::{IntoKey, Key};
    pub type Work = u64;
    pub type DomainKey = u64;
}
use domain::decomposition::*;
""" + main})
seed(id="C10-a", property="C10", needs="a particle whose key is exactly the cut between two ranks, which a binary search does hit",
  breaks="the segment after a cut starts one key later: a particle at the cut is in no segment, the loads no longer add up to the total and the next cut is misplaced",
  edits=[(DE, "            start = end;\n", "            start = end.next();\n")],
  crate=decomposition("""fn main() {
    // 16 keys on two ranks: whatever the cut, each of them is counted in one of the segments
    for shift in 0..16 {
        let keys: Vec<u64> = (0..16).map(|i| i + shift).collect();
        let d = Decomposition::new(&mut KeyCounter::new(keys.clone()), 2);
        let first = keys.iter().filter(|k| d.get_owning_rank(**k) == 0).count() as f64;
        let second = 16.0 - first;
        let want = (first.max(second) - first.min(second)) / first.max(second);
        assert!((d.get_imbalance() - want).abs() < 1e-12, "owned {first} and {second}, but imbalance {}", d.get_imbalance());
    }
}
"""))
seed(id="C10-b", property="C10", needs="at least two ranks whose largest keys differ",
  breaks="each rank searches the cuts up to its own largest key: ranks disagree about who owns what",
  edits=[(DE, "        let max_key = key_comm.all_gather_max(&local_counter.max_key()).unwrap();", "        let max_key = K::max(min_key, local_counter.max_key());")],
  crate=decomposition("""fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(100)); eprintln!("the ranks wait for each other"); std::process::exit(1) });
    let (_, res) = mpi::simulate(2, |me| {
        let keys: Vec<u64> = if me == 0 { vec![1, 2, 3, 4] } else { vec![2, 40, 50, 70] };
        let mut c = ParallelCounter::new(KeyCounter::new(keys));
        let d = Decomposition::new(&mut c, 2);
        (0..100u64).map(|k| d.get_owning_rank(k)).collect::<Vec<_>>()
    });
    let owners: Vec<Vec<i32>> = res.into_iter().map(|r| r.expect("a rank failed")).collect();
    assert_eq!(owners[0], owners[1]);
    assert!(owners[0].iter().all(|r| *r == 0 || *r == 1));
}
"""))

def sweepkit(body):
  return "import sweepmirror\nSPEC = dict(files=sweepmirror.files(sweepmirror.WORLD + '''pub mod vx { use super::vxw::{self, *};\n" + body + "\n}'''), lib_rs=sweepmirror.LIB, main_rs='fn main() { demo::sweep::vx::run() }', deps=sweepmirror.DEPS)\n"
ROW = """
    // three cells in a row along the direction, the last one at the border
    fn row(levels: usize, wishes: [f64; 3], transmit: Vec<f64>, steps: usize) -> Grid {
        let c = |i: usize, faces| CellSpec { rank: 0, index: i, faces, source: if i == 0 { 6.0 } else { 0.0 }, transmit: transmit.clone(), wishes: vec![wishes[i]] };
        let (l, r, up) = ([-1.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.6, 0.8, 0.0]);
        Grid { cells: vec![c(0, vec![(l, 1.0, To::Edge), (r, 2.0, To::Cell(1)), (up, 5.0, To::Edge)]), c(1, vec![(l, 2.0, To::Cell(0)), (r, 1.0, To::Cell(2))]), c(2, vec![(l, 1.0, To::Cell(1)), (r, 1.0, To::Edge)])],
            ranks: 1, dirs: vec![[1.0, 0.0, 0.0]], levels, max_dt: 1.0, safety: 1.0, batch: 10, deadlock: false, steps, rendezvous: false, late: None }
    }
"""
seed(id="C13-a", property="C13", needs="a cell with a downwind face on the border of the box and one that is not",
  breaks="the total area is that of the faces with a neighbour, so a cell at the border passes on more than it lets through",
  edits=[("src/sweep/grid/cell.rs", "        self.neighbours\n            .iter()\n            .map(|(face, _)| face)", "        self.neighbours\n            .iter()\n            .filter(|(_, neighbour)| !neighbour.is_boundary())\n            .map(|(face, _)| face)")],
  kit=sweepkit(ROW + """
    pub fn run() {
        let w = vxw::run(&row(1, [1.0; 3], vec![1.0], 1));
        let s = &w.ranks[0].states[0];
        // of the 6 that leave cell 0, two fifths go through the face to cell 1 (areas 2 and 5 * 0.6)
        assert!((s[1].1[0] - 6.0 * 2.0 / 5.0).abs() < 1e-9, "cell 1 receives {}", s[1].1[0]);
        assert!((s[2].1[0] - s[1].2[0]).abs() < 1e-9, "cell 2 receives {}", s[2].1[0]);
    }"""))
seed(id="C13-b", property="C13", needs="an inactive cell (on a lower timestep level) downwind of an active one whose rate changes",
  breaks="what an active cell passes on to an inactive cell of its own rank is lost for good",
  edits=[("src/sweep/mod.rs", "        site.incoming_total_rate[*dir] += incoming_rate_correction;\n        if is_active {\n", "        if is_active {\n            site.incoming_total_rate[*dir] += incoming_rate_correction;\n")],
  kit=sweepkit(ROW + """
    pub fn run() {
        // the first cell takes small steps and lets more and more through
        let g = row(2, [0.4, 9.0, 9.0], vec![0.1, 0.3, 0.5, 0.7, 0.9], 4);
        let w = vxw::run(&g);
        for s in &w.ranks[0].states {
            assert!((s[1].1[0] - s[0].2[0] * 2.0 / 5.0).abs() < 1e-9, "cell 0 passes on {}, cell 1 receives {}", s[0].2[0], s[1].1[0]);
        }
    }"""))
def iokit(body):
  return "import iomirror, parts\nSPEC = dict(files=iomirror.files('', output=iomirror.writer('''pub mod vx { use super::*; use crate::components::*; use crate::named::Named; use crate::prelude::*; use crate::simulation_plugin::*; use crate::units::Time; use bevy_ecs::prelude::EventReader; use bevy_ecs::schedule::ShouldRun;\n" + IOPARAMS + body + "\n}''')), lib_rs=iomirror.LIBW, main_rs='fn main() { demo::io::output::vx::run() }', deps=['mpi', 'bevy_ecs', 'derive_more', 'lazy_static', parts.VXDERIVE, 'hdf5', 'ndarray', 'log', 'derive_custom', 'glam'])\n"
IOPARAMS = """
    fn params(dir: PathBuf, first: Option<f64>, every: f64, nfiles: usize) -> OutputParameters {
        OutputParameters {
            time_between_snapshots: Time::seconds(every), time_first_snapshot: first.map(Time::seconds), output_dir: dir, snapshots_dir: "snaps".into(), time_series_dir: "series".into(),
            fields: parameters::Fields::All, snapshot_padding: 3, used_parameters_filename: "p".into(), handle_existing_output: parameters::HandleExistingOutput::Panic, performance_data_filename: "q".into(), num_output_files: nfiles,
        }
    }
    fn timer(p: &OutputParameters) -> Timer { let c = Commands::default(); Timer::initialize_system(c.clone(), Res(p)); c.vx_take::<Timer>().unwrap() }
    fn desc<T: Named>() -> OutputDatasetDescriptor<T> { OutputDatasetDescriptor::new(DatasetDescriptor::default_for::<T>()) }
    /// temperatures 0, 1, 2, ... of the ranks' particles written to one snapshot and read back
    fn round_trip(counts: Vec<usize>, nfiles: usize) {
        let dir = std::env::temp_dir().join(format!("vx-demo-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        let total: usize = counts.iter().sum();
        let (c2, d2) = (counts.clone(), dir.clone());
        let (_, res) = mpi::simulate(counts.len(), move |rank| {
            let p = params(d2.clone(), None, 1.0, nfiles);
            let (me, size, n) = (WorldRank(rank), WorldSize(c2.len()), NumParticlesTotal(total));
            let before: usize = c2[..rank as usize].iter().sum();
            let data: Vec<Temperature> = (0..c2[rank as usize]).map(|i| Temperature(crate::units::Temperature::new_unchecked((before + i) as f64))).collect();
            let c = Commands::default();
            compute_output_rank_assignment_system(c.clone(), Res(&me), Res(&p), Particles(data.iter().map(|_| Entity(0)).collect()), Res(&n));
            let a = c.vx_take::<RankAssignment>().unwrap();
            let (tm, mut f) = (timer(&p), OutputFiles(None));
            if rank == 0 {
                create_file_system(ResMut(&mut f), Res(&p), Res(&tm), Res(&n), Res(&me));
                create_dataset_system::<Temperature>(ResMut(&mut f), NonSend(&desc()));
                close_file_system(ResMut(&mut f));
            }
            init_wait_for_other_ranks_system(Res(&size), Res(&me));
            open_file_system(ResMut(&mut f), Res(&p), Res(&tm), Res(&a));
            write_dataset_system::<Temperature>(Particles(data.iter().collect()), ResMut(&mut f), NonSend(&desc()));
            close_file_system(ResMut(&mut f));
            finish_wait_for_other_ranks_system(Res(&size), Res(&me));
        });
        let mut files = crate::io::input::get_file_or_all_hdf5_files_in_path_if_dir(&dir.join("snaps").join("000"));
        files.sort();
        std::fs::remove_dir_all(&dir).unwrap();
        assert!(res.iter().all(|r| r.is_ok()), "writing failed: {res:?}");
        let r = crate::io::input::Reader::full(files.iter());
        let v: Vec<f64> = r.read_dataset(crate::io::InputDatasetDescriptor::<Temperature>::default()).map(|t| t.0.value_unchecked()).collect();
        assert_eq!(v, (0..total).map(|i| i as f64).collect::<Vec<_>>(), "read back");
    }
"""
seed(id="C21-a", property="C21", needs="a time of the first snapshot other than zero",
  breaks="after the first output the schedule forgets when it started: outputs are due at multiples of the interval from zero",
  edits=[("src/io/output/timer.rs", "        output_timer.next_output_time += parameters.time_between_snapshots;", "        output_timer.next_output_time =\n            parameters.time_between_snapshots * output_timer.snapshot_num as f64;")],
  kit=iokit("""
    pub fn run() {
        let p = params("/nowhere".into(), Some(5.0), 3.0, 1);
        let mut t = timer(&p);
        let mut at = vec![];
        for s in 0..20 {
            if Timer::run_criterion(Res(&SimulationTime(Time::seconds(s as f64))), Res(&t), EventReader(vec![])) == ShouldRun::Yes { at.push(s); Timer::update_system(ResMut(&mut t), Res(&p)); }
        }
        assert_eq!(at, vec![5, 8, 11, 14, 17]);
    }"""))
seed(id="C21-b", property="C21", needs="more snapshots than their numbers have digits for",
  breaks="later snapshots overwrite the first ones",
  edits=[("src/io/output/mod.rs", "        output_timer.snapshot_num(),\n        snap_padding", "        output_timer.snapshot_num() % 10usize.pow(parameters.snapshot_padding as u32),\n        snap_padding")],
  kit=iokit("""
    pub fn run() {
        let p = params("/nowhere".into(), None, 0.0, 1);
        let mut t = timer(&p);
        let mut seen = std::collections::HashSet::new();
        for s in 0..1100 {
            assert!(seen.insert(get_snapshot_dir(&p, &t)), "snapshot {s} has the name of an earlier one");
            Timer::update_system(ResMut(&mut t), Res(&p));
        }
    }"""))
seed(id="C32-a", property="C32", needs="ten or more output files and a rank that writes to fewer than ten of them",
  breaks="a rank looks for its part under another file name than the one the main rank created",
  edits=[("src/io/output/mod.rs", "((parameters.num_output_files as f64).log10().floor() as usize) + 1", "((assignment.regions.len().max(1) as f64).log10().floor() as usize) + 1")],
  kit=iokit("""
    pub fn run() {
        round_trip(vec![3, 4, 2], 4);
        round_trip(vec![11, 12], 11);
    }"""))
seed(id="C32-b", property="C32", needs="more than one output file",
  breaks="only the first file carries the dimension of a field, the others cannot be read back",
  edits=[("src/io/output/mod.rs", "        add_dimension_attrs::<T>(&dataset);\n    }", "        if region.file_index == 0 {\n            add_dimension_attrs::<T>(&dataset);\n        }\n    }")],
  kit=iokit("""
    pub fn run() {
        round_trip(vec![3, 4, 2], 1);
        round_trip(vec![3, 4, 2], 3);
    }"""))

def boxkit(body, search=""):
    return """
import boxmirror as b
SPEC = dict(files=b.files(False, %r, b.USES + %r), lib_rs=b.LIB, main_rs="fn main() { demo::simulation_box::vxdemo::run() }\\n", deps=b.DEPS + ["glam"])
""" % ("pub mod vxdemo { use super::*;\n" + body + "\n}", search)

SB = "src/simulation_box.rs"
seed(id="C11-a", property="C11", needs="a box that is not a cube and two points separated across its z border",
  breaks="the z component of the periodic distance is wrapped by the y length: it is not the smallest distance",
  edits=[(SB, "            dist.0.z = minimize_component(\n                dist.z().value_unchecked(),\n                side_lengths.z().value_unchecked(),", "            dist.0.z = minimize_component(\n                dist.z().value_unchecked(),\n                side_lengths.y().value_unchecked(),")],
  kit=boxkit("""
    pub fn run() {
        let b = SimulationBox::new(Extent::from_min_max(VecLength::meters(0.0, 0.0, 0.0), VecLength::meters(1.0, 2.0, 3.0)));
        let d = b.periodic_distance(&VecLength::meters(0.5, 0.5, 2.9), &VecLength::meters(0.5, 0.5, 0.1));
        assert!((d.in_meters() - 0.2).abs() < 1e-12, "{d:?}");
    }"""))
seed(id="C11-b", property="C11", needs="an image that moved down in the z direction only",
  breaks="images below the box count as not periodic, so halo cells there are dropped",
  edits=[(SB, "        self.x != WrapType::NoWrap || self.y != WrapType::NoWrap || self.z != WrapType::NoWrap", "        self.x != WrapType::NoWrap || self.y != WrapType::NoWrap || self.z == WrapType::Plus")],
  kit=boxkit("""
    pub fn run() {
        let b = SimulationBox::cube_from_side_length(Length::meters(1.0));
        let p = VecLength::meters(0.5, 0.5, 0.5);
        for (t, q) in b.iter_periodic_images(p) { assert_eq!(t.is_periodic(), q != p, "{t:?}") }
    }"""))
seed(id="C11-c", property="C11", needs="a box that does not begin at the origin and a point outside it",
  breaks="points outside are wrapped about the origin instead of the lower corner of the box and end up outside it",
  edits=[(SB, "    min + (v - min).rem_euclid(max - min)", "    if v >= min && v < max {\n        v\n    } else {\n        v.rem_euclid(max - min)\n    }")],
  kit=boxkit("""
    pub fn run() {
        let b = SimulationBox::new(Extent::from_min_max(VecLength::meters(-1.0, -1.0, -1.0), VecLength::meters(1.0, 1.0, 1.0)));
        let p = b.periodic_wrap(VecLength::meters(-1.5, 3.5, 0.5));
        assert_eq!(p, VecLength::meters(0.5, -0.5, 0.5));
    }"""))

def geokit(body):
    return """
import geomirror as g
SPEC = dict(files=g.files(False), lib_rs=g.LIB + %r, main_rs="fn main() { demo::vxdemo::run() }\\n", deps=g.DEPS + ["glam"])
""" % ("pub mod vxdemo { use crate::dimension::*; use crate::extent::Extent; use crate::voronoi::delaunay::dimension::DTetraData; use crate::voronoi::primitives::{tetrahedron::TetrahedronData, triangle::*, polygon3d::*}; use crate::voronoi::{Point2d, Point3d};\n" + body + "\n}")

GTE, GTR = "src/voronoi/primitives/tetrahedron.rs", "src/voronoi/primitives/triangle.rs"
seed(id="C20-a", property="C20", needs="a tetrahedron and a point nearly on its circumsphere, so that the float determinant is mere rounding error",
  breaks="the error bound of the float circumsphere test is far below its rounding error: nearly cospherical points are decided by noise",
  edits=[(GTE, "let error_bound = 1.0e-14 * size_limit;", "let error_bound = f64::EPSILON * f64::EPSILON.sqrt() * size_limit;")],
  kit=geokit("""
    pub fn run() {
        let p = [Point3d::new(-1.540668104661215e-11, 3.7712744911290094e-11, 5.44258319398465e-11), Point3d::new(2.247964015178509e-11, 1.7534929999358278e-11, 9.22992773177056e-11), Point3d::new(8.572411348514574e-12, 2.687115332132938e-11, 2.8815316350856296e-11), Point3d::new(4.042076398963788e-11, 2.1234782674422343e-11, 7.656060909531023e-11)];
        let e = Point3d::new(2.7965389636382527e-11, -7.47188557939954e-12, 4.8821096443790785e-11);
        // radius^2 - distance^2 is -6.4e-71 divided by the volume: outside
        for k in [[0, 1, 2, 3], [1, 3, 2, 0], [2, 0, 1, 3], [1, 2, 0, 3]] {
            let t = TetrahedronData { p1: p[k[0]], p2: p[k[1]], p3: p[k[2]], p4: p[k[3]] };
            assert!(!t.circumcircle_contains(e), "{k:?}");
        }
    }"""))
seed(id="C20-b", property="C20", needs="a point whose closest point on a triangle is inside the edge from the second to the third vertex, away from its middle",
  breaks="the closest point on that edge is mirrored about its middle: the distance to the triangle is too large",
  edits=[(GTR, "let v = (d4 - d3) / ((d4 - d3) + (d5 - d6));", "let v = (d5 - d6) / ((d4 - d3) + (d5 - d6));")],
  kit=geokit("""
    pub fn run() {
        let t = TriangleData::<Point3d> { p1: Point3d::new(0.0, 0.0, 0.0), p2: Point3d::new(1.0, 0.0, 0.0), p3: Point3d::new(0.0, 1.0, 0.0) };
        let d = t.distance_to_point(Point3d::new(1.75, 1.25, 0.0));
        assert!((d - 2.0f64.sqrt()).abs() < 1e-12, "{d}");
    }"""))
seed(id="C20-c", property="C20", needs="a flat tetrahedron, for which the float solver of the circumcenter refuses",
  breaks="the exact circumcenter has the wrong sign in its second coordinate",
  edits=[(GTE, "let dy = -determinant4x4([", "let dy = determinant4x4([")],
  kit=geokit("""
    pub fn run() {
        let t = TetrahedronData { p1: Point3d::new(1.0, 1.225, 1.225), p2: Point3d::new(1.15, 1.225, 1.0), p3: Point3d::new(1.225, 1.075, 1.15), p4: Point3d::new(1.2597512497038958, 1.1681526130726727, 0.9348560528669785) };
        let c = t.get_center_of_circumcircle();
        let r = c.distance(t.p1);
        for p in [t.p2, t.p3, t.p4] { assert!(((p - t.p1).dot(c - t.p1) * 2.0 - (p - t.p1).length_squared()).abs() < 1e-6, "{c:?}") }
    }"""))
seed(id="C20-d", property="C20", needs="a point outside a tetrahedron that is closest to the face without the second vertex",
  breaks="one face is left out of the distance to a tetrahedron",
  edits=[(GTE, "            p1: self.p3,\n            p2: self.p4,\n            p3: self.p1,", "            p1: self.p3,\n            p2: self.p4,\n            p3: self.p2,")],
  kit=geokit("""
    pub fn run() {
        let t = TetrahedronData { p1: Point3d::new(0.0, 0.0, 0.0), p2: Point3d::new(1.0, 0.0, 0.0), p3: Point3d::new(0.0, 1.0, 0.0), p4: Point3d::new(0.0, 0.0, 1.0) };
        for (p, want) in [(Point3d::new(-0.5, 0.25, 0.25), 0.5), (Point3d::new(0.25, -0.5, 0.25), 0.5), (Point3d::new(0.25, 0.25, -0.5), 0.5), (Point3d::new(0.1, 0.1, 0.1), 0.0)] {
            let d = t.distance_to_point(p);
            assert!((d - want).abs() < 1e-12, "{p:?}: {d}");
        }
    }"""))

def gridkit(body):
    return """
import gridmirror as b
SPEC = dict(files=b.files(False, %r), lib_rs=b.LIB, main_rs="fn main() { demo::sweep::grid::vx::run() }\\n", deps=b.DEPS + ["glam"])
""" % ("pub mod vx { use super::*;\n" + r"""
    pub fn part<T: 'static>(e: &[Box<dyn std::any::Any>]) -> Option<&T> { e.iter().find_map(|c| c.downcast_ref::<T>()) }
    pub fn grid(side: [f64; 3], size: usize, rank: Rank, periodic: bool) -> Vec<(bool, Position, Cell, ParticleId)> {
        let b = SimulationBox::new(crate::domain::Extent::from_min_max(VecLength::zero(), VecLength::meters(side[0], side[1], side[2])));
        let c = Commands::default();
        let (s, r) = (WorldSize(size), WorldRank(rank));
        init_cartesian_grid_system(c.clone(), Res(&b), NumCellsSpec::CellSize(Length::meters(1.0)), Res(&s), Res(&r), periodic);
        let all = c.spawned.borrow();
        all.iter().map(|e| (part::<LocalParticle>(e).is_some(), Position(part::<Position>(e).unwrap().0), part::<Cell>(e).unwrap().clone(), *part::<ParticleId>(e).unwrap())).collect()
    }
""" + body + "\n}")

CG = "src/sweep/grid/cartesian.rs"
seed(id="C18-a", property="C18", needs="a periodic grid with fewer cells in y than in z",
  breaks="neighbours across the z border are wrapped by the number of cells in y: they are not the cells on the other side (or no cells at all)",
  edits=[(CG, "            let (z, z_wrap) = wrap_component(self.z, num_cells.z);", "            let (z, z_wrap) = wrap_component(self.z, num_cells.y);")],
  kit=gridkit("""
    pub fn run() {
        let g = grid([1.0, 2.0, 4.0], 1, 0, true);
        for (_, p, c, id) in &g {
            for (_, n) in &c.neighbours {
                let q = &g.iter().find(|o| o.3 == n.unwrap_id()).unwrap();
                assert!(q.2.neighbours.iter().any(|(_, m)| m.unwrap_id() == *id), "{:?} has the neighbour {:?}, which does not have it", p.0, q.1 .0);
            }
        }
    }"""))
seed(id="C18-b", property="C18", needs="a periodic grid on at least three ranks, whose first and last rank touch only across the border",
  breaks="cells on another rank that are neighbours only across the periodic border are not kept as halos: the sweep does not know them",
  edits=[(CG, "                } else if let ParticleType::RemotePeriodic(neighbour) = neighbour {\n                    neighbour.rank == self.rank\n", "                } else if let ParticleType::RemotePeriodic(neighbour) = neighbour {\n                    neighbour.rank == self.rank && rank + 1 >= self.rank\n")],
  kit=gridkit("""
    pub fn run() {
        for rank in 0..3 {
            let g = grid([6.0, 1.0, 1.0], 3, rank, true);
            for (local, _, c, _) in &g {
                if *local { for (_, n) in &c.neighbours { assert!(g.iter().any(|o| o.3 == n.unwrap_id()), "rank {rank} does not hold {n:?}") } }
            }
        }
    }"""))
seed(id="C18-c", property="C18", needs="halo cells, i.e. more than one rank",
  breaks="whether a neighbour is local is judged from the rank that builds the grid, not from that of the cell: cells of other ranks call their neighbours here local, and are not kept as halos",
  edits=[(CG, "        let is_local = particle_rank == neighbour_rank;", "        let is_local = particle_rank == neighbour_rank || neighbour_rank == self.rank;")],
  kit=gridkit("""
    pub fn run() {
        for rank in 0..2 {
            let g = grid([4.0, 2.0, 1.0], 2, rank, false);
            for (local, _, c, _) in &g {
                if *local { for (_, n) in &c.neighbours { assert!(n.is_boundary() || g.iter().any(|o| o.3 == n.unwrap_id()), "rank {rank} does not hold {n:?}") } }
            }
        }
    }"""))

def treekit(body):
    return """
import treemirror as b
SPEC = dict(files=b.files(%r), lib_rs=b.LIB, main_rs="fn main() { demo::quadtree::vx::run() }\\n", deps=b.DEPS + ["glam"])
""" % ("pub mod vx { use super::*; use crate::domain::*; use crate::prelude::ParticleId; use crate::quadtree::*;\n" + r"""
    pub fn setting(side: f64, pts: &[[f64; 3]]) -> (SimulationBox, crate::domain::QuadTree) {
        let b = SimulationBox::cube_from_side_length(Length::meters(side));
        let c = QuadTreeConfig { max_depth: 10, max_num_particles_per_leaf: 1 };
        let l = pts.iter().enumerate().map(|(i, p)| LeafData { id: ParticleId { index: i as u32, rank: 0 }, pos: VecLength::meters(p[0], p[1], p[2]) }).collect();
        let t = crate::domain::QuadTree::new(&c, l, &b);
        (b, t)
    }
    pub fn grid(n: usize) -> Vec<[f64; 3]> { (0..n * n * n).map(|i| [i % n, i / n % n, i / n / n].map(|x| x as f64 + 0.5)).collect() }
    pub fn search(n: usize, q: [f64; 3], r: f64) {
        let pts = grid(n);
        let (b, t) = setting(n as f64, &pts);
        let mut found: Vec<u32> = t.iter_particles_in_radius(&b, VecLength::meters(q[0], q[1], q[2]), Length::meters(r)).map(|l| l.id.index).collect();
        found.sort();
        let l = n as f64;
        let d = |p: &[f64; 3]| (0..3).map(|i| { let x = (p[i] - q[i]).abs(); x.min(l - x).powi(2) }).sum::<f64>().sqrt();
        let want: Vec<u32> = pts.iter().enumerate().filter(|(_, p)| d(p) < r).map(|(i, _)| i as u32).collect();
        assert_eq!(found, want, "around {q:?} within {r}");
    }
""" + body + "\n}")

seed(id="C19-a", property="C19", needs="a search whose sphere reaches into a node of the tree by less than half its radius",
  breaks="the radius counts only half when deciding which nodes a search visits: particles near the edge of the sphere are missed",
  edits=[(
    "src/quadtree/radius_search.rs", "    let total_size = *size1 + *size2;", "    let total_size = (*size1 + *size2) / 2.0;")],
  kit=treekit("""
    pub fn run() { for q in [[4.0; 3], [1.2, 3.4, 6.1], [0.1, 7.9, 4.4]] { for r in [0.6, 1.3, 2.2, 3.1] { search(8, q, r) } } }"""))
seed(id="C19-b", property="C19", needs="particles in the child node that is in the upper half in x and z and in the lower half in y",
  breaks="the box of one of the eight children is a slice without volume: its particles lie outside of it, and searches pass it by",
  edits=[("src/domain/extent.rs", "        let max_101 = Vec3Length::new(self.max.x(), self.center.y(), self.max.z());", "        let max_101 = Vec3Length::new(self.max.x(), self.center.y(), self.center.z());")],
  kit=treekit("""
    pub fn run() { for q in [[7.3, 0.7, 7.4], [6.3, 1.7, 5.4], [5.0, 3.0, 7.9]] { for r in [0.3, 0.6, 0.9, 1.3, 2.2, 3.1] { search(8, q, r) } } }"""))
seed(id="C19-c", property="C19", needs="a leaf with several particles that is divided",
  breaks="the particles of a leaf that is divided count twice: the work of a node is not the number of particles below it",
  edits=[("src/quadtree/mod.rs", "            self.insert(config, particle, depth);\n        }", "            self.insert_new(config, particle, depth);\n        }")],
  kit=treekit("""
    pub fn run() { let (_, t) = setting(4.0, &grid(4)); assert_eq!(t.data.work, 64); }"""))

def chemkit(body):
  return "import chemmirror\nSPEC = dict(files=chemmirror.files('''pub mod vx { use super::*;\n" + CHEMGAS + body + "\n}'''), lib_rs=chemmirror.LIB, main_rs='fn main() { demo::chemistry::hydrogen_only::vx::run() }', deps=chemmirror.DEPS)\n"
CHEMGAS = """
    // gas of one atom per cm^3 in a cell of a parsec
    fn gas(t: f64, x: f64, rate: f64) -> Solver {
        Solver {
            ionized_hydrogen_fraction: Dimensionless::dimensionless(x), temperature: Temperature::kelvins(t), density: PROTON_MASS * NumberDensity::new_unchecked(1e6), volume: Length::parsec(1.0).cubed(), length: Length::parsec(1.0),
            rate: PhotonRate::photons_per_second(rate), scale_factor: Dimensionless::dimensionless(1.0), floor: None,
        }
    }
"""
seed(id="C14-a", property="C14", needs="a substep in which the temperature changes little enough and the ionized fraction does not",
  breaks="the temperature of a substep that is rejected because of the ionized fraction is kept, so heating and cooling count several times",
  edits=[("src/chemistry/hydrogen_only/mod.rs", "                (self.temperature, self.ionized_hydrogen_fraction) = initial_state;\n                self.perform", "                // A rejected update leaves the value it was meant for alone\n                self.ionized_hydrogen_fraction = initial_state.1;\n                self.perform")],
  kit=chemkit("""
    pub fn run() {
        // hot, nearly neutral gas: the fraction grows by orders of magnitude while the temperature changes slowly
        let (dt, safety) = (Time::years(100.0), Dimensionless::dimensionless(0.1));
        let mut s = gas(2e4, 1e-6, 1e43);
        s.perform_timestep(dt, safety);
        let mut r = gas(2e4, 1e-6, 1e43);
        for _ in 0..4096 { r.perform_timestep(dt / 4096.0, safety); }
        let (a, b) = (s.temperature.in_kelvins(), r.temperature.in_kelvins());
        println!("T = {a} in one step, {b} in many");
        assert!((a - b).abs() < 0.1 * (b - 2e4).abs(), "T = {a} in one step, {b} in many");
    }"""))
seed(id="C14-b", property="C14", needs="a run that prevents cooling, and gas that cools or recombines in the last substep of a step",
  breaks="the state is brought into range before a step only, so that a step can leave gas below the floors that prevent cooling",
  edits=[("src/chemistry/hydrogen_only/mod.rs", "        )?);\n        self.clamp();\n        Ok(ideal_temperature_timestep", "        )?);\n        Ok(ideal_temperature_timestep")],
  kit=chemkit("""
    pub fn run() {
        for t in [5e3, 2e4, 1e5] {
            for x in [0.1, 0.5, 0.9] {
                let mut s = gas(t, x, 0.0);
                s.floor = Some((s.temperature, s.ionized_hydrogen_fraction));
                s.perform_timestep(Time::years(1e3), Dimensionless::dimensionless(0.1));
                let (t1, x1) = (s.temperature.in_kelvins(), s.ionized_hydrogen_fraction.value());
                assert!(t1 >= t * (1.0 - 1e-12) && x1 >= x && x1 < 1.0, "from T = {t}, x = {x} to {t1}, {x1}");
            }
        }
    }"""))
seed(id="C14-c", property="C14", needs="partly ionized gas",
  breaks="the derivative of the recombination coefficient has lost a factor, so that the ionized fraction is advanced with the wrong slope",
  edits=[("src/chemistry/hydrogen_only/mod.rs", "            * ((c1 * lambda).powf(c2) + 1.0).powf(-c3 - 1.0)\n", "            * ((c1 * lambda).powf(c2) + 1.0).powf(-c3)\n")],
  kit=chemkit("""
    pub fn run() {
        for t in [2e3, 1e4, 5e4, 1e6] {
            let at = |t: f64| gas(t, 0.5, 0.0).case_b_recombination_rate().value_unchecked();
            let (d, e) = ((at(t * 1.0001) - at(t * 0.9999)) / (2e-4 * t), gas(t, 0.5, 0.0).case_b_recombination_rate_derivative().value_unchecked());
            assert!((d - e).abs() < 1e-3 * d.abs(), "at {t} K {e}, by differences {d}");
        }
    }"""))
seed(id="C14-d", property="C14", needs="a step in which the ionized fraction changes faster than the temperature",
  breaks="the reported timescale is the longer one, so that cells whose ionized fraction changes quickly are put on long timesteps",
  edits=[("src/chemistry/timescale.rs", "        if self.time < other.time {\n            *self\n        } else {\n            other\n", "        if self.time < other.time {\n            other\n        } else {\n            *self\n")],
  kit=chemkit("""
    pub fn run() {
        let mut s = gas(2e4, 1e-3, 1e43);
        let dt = Time::years(1e-3);
        let (dx, dtemp) = ((s.ionized_fraction_change(dt) / 1e-3).value().abs(), (s.temperature_change(dt) / s.temperature).value().abs());
        let scale = s.perform_timestep(dt, Dimensionless::dimensionless(0.1)).time.in_years();
        let want = 1e-3 * 0.1 / dx.max(dtemp);
        assert!((scale / want - 1.0).abs() < 0.05, "{scale} yr instead of {want} yr");
    }"""))

def unitkit(body):
  return "import unitmirror\nSPEC = dict(files=unitmirror.concrete_files('''pub mod vx { use super::*; use crate::arepo::ArepoUnitReader; use crate::io::UnitReader; use crate::units::*;\n" + UNITSET + body + "\n}'''), lib_rs=unitmirror.LIB, main_rs='fn main() { demo::cosmology::vx::run() }', deps=unitmirror.DEPS)\n"
UNITSET = """
    #[allow(dead_code)]
    /// the factor with which a dataset of an Arepo snapshot is read
    fn factor(l: i32, v: i32, m: i32, ea: i32, eh: i32, cgs: f64, a: f64, h: f64) -> f64 {
        let file = hdf5::File::create(format!("/no/such/dir/{l}{v}{m}{ea}{eh}")).unwrap();
        let set = file.new_dataset::<f64>().shape(1).create("x").unwrap();
        for (n, x) in [("length_scaling", l), ("velocity_scaling", v), ("mass_scaling", m), ("a_scaling", ea), ("h_scaling", eh)] { set.new_attr::<i32>().shape(()).create(n).unwrap().write_scalar(&x).unwrap() }
        set.new_attr::<f64>().shape(()).create("to_cgs").unwrap().write_scalar(&cgs).unwrap();
        ArepoUnitReader::new(Cosmology::Cosmological { a, h, params: None }).read_scale_factor(&set)
    }
    #[allow(dead_code)]
    fn is(got: f64, want: f64) { println!("{got} {want}"); assert!((got - want).abs() <= 1e-6 * want.abs(), "{got} instead of {want}") }
"""
seed(id="C15-a", property="C15", needs="an Arepo dataset in units of h alone, such as masses in solar masses over h",
  breaks="data that scale with h but not with the scale factor are read as if they were physical",
  edits=[("src/arepo_postprocess/unit_reader.rs", "    dimension.a != 0 || dimension.h != 0\n", "    // Comoving quantities\n    dimension.a != 0\n")],
  kit=unitkit("""
    pub fn run() {
        is(factor(1, 0, 0, 1, -1, 3.0857e21, 0.1, 0.7), 3.0857e19 * 0.1 / 0.7);
        is(factor(0, 0, 1, 0, -1, 1.989e43, 0.1, 0.7), 1.989e40 / 0.7);
    }"""))
seed(id="C15-b", property="C15", needs="an Arepo dataset that contains velocities, such as velocities or specific energies",
  breaks="velocities count as length over time in the dimension but not in the conversion from cm to m",
  edits=[("src/arepo_postprocess/unit_reader.rs", "        let cgs_to_si = 0.01f64.powi(dimension.length) * 0.001f64.powi(dimension.mass);", "        // without the part of the length that is due to the velocity\n        let cgs_to_si = 0.01f64.powi(dimension.length + dimension.time) * 0.001f64.powi(dimension.mass);")],
  kit=unitkit("""
    pub fn run() {
        is(factor(1, 0, 0, 0, 0, 3.0857e21, 0.1, 0.7), 3.0857e19);
        is(factor(-3, 0, 1, 0, 0, 1.0, 0.1, 0.7), 1e3);
        is(factor(0, 2, 0, 0, 0, 1e10, 0.1, 0.7), 1e6);
    }"""))
seed(id="C15-c", property="C15", needs="a cosmological run that goes on to late times, when dark energy matters",
  breaks="the time at a scale factor has a term with the wrong power: right at early times, off by up to tens of percent later",
  edits=[("src/cosmology.rs", "            let term2 = (1.0 + omega_lambda / omega_0 * a.cubed()).sqrt();", "            let term2 = (1.0 + omega_lambda / omega_0 * a.squared()).sqrt();")],
  kit=unitkit("""
    pub fn run() {
        let p = CosmologyParams::vx_new(0.3, 0.7);
        let t = |x: f64, y: f64| p.time_difference_between_scalefactors(x.into(), y.into(), 0.7.into()).in_gigayears();
        // dt = da / (a H(a))
        let hub = 3.2407789e-18 * 0.7 * 3.15576e16;
        for (x, y) in [(0.01, 0.05), (0.1, 0.3), (0.5, 1.0)] {
            let n = 20000;
            let want: f64 = (0..n).map(|i| { let a: f64 = x + (y - x) * (i as f64 + 0.5) / n as f64; (y - x) / n as f64 / (a * hub * (0.3 / a.powi(3) + 0.7).sqrt()) }).sum();
            let got = t(x, y);
            assert!((got - want).abs() < 1e-3 * want, "{got} Gyr instead of {want} from a = {x} to {y}");
        }
    }"""))
seed(id="C15-d", property="C15", needs="a comoving quantity over h, and h not equal to 1",
  breaks="removing the powers of h from a quantity multiplies by them where they have to be divided out",
  edits=[("src/cosmology.rs", "a.powi(-dimension.a) * h.powi(-dimension.h)", "a.powi(-dimension.a) * h.powi(dimension.h)")],
  kit=unitkit("""
    pub fn run() {
        let c = Cosmology::Cosmological { a: 0.1, h: 0.7, params: None };
        is(ComovingLength::comoving_kiloparsec(3.0).make_non_cosmological(&c).in_kiloparsec(), 0.3);
        is(ComovingLengthTimesH::weird_cosmological_notation_kiloparsec(3.0).make_non_cosmological(&c).in_kiloparsec(), 0.3 / 0.7);
    }"""))
seed(id="C15-e", property="C15", needs="partly ionized gas",
  breaks="the temperature is computed from the energy with the molecular weight of a gas whose electrons are not counted, so going back and forth changes the temperature",
  edits=[("src/units/specific_impls.rs", "        let molecular_weight = 1.0 / (ionized_hydrogen_fraction + 1.0);\n        (internal", "        let molecular_weight = 1.0 - 0.5 * ionized_hydrogen_fraction;\n        (internal")],
  kit=unitkit("""
    pub fn run() {
        for x in [0.0, 0.3, 0.7, 1.0] {
            let (t, rho, x) = (Temperature::kelvins(1e4), Density::grams_per_cubic_centimeters(1e-24), Dimensionless::dimensionless(x));
            is(Temperature::from_internal_energy_density_hydrogen_only(EnergyDensity::from_temperature_hydrogen_only(t, x, rho), x, rho).in_kelvins(), 1e4);
        }
    }"""))

def vorokit(body):
    return """
import voromirror as v
SPEC = dict(files=v.files(%r), lib_rs=v.LIB, main_rs="fn main() { demo::voronoi::vxdemo::run() }\\n", deps=v.DEPS)
""" % ("pub mod vxdemo { use crate::voronoi::*; use crate::dimension::ThreeD; use crate::particle::ParticleId; use crate::sweep::grid::{Cell as GridCell, ParticleType};\n" + body + "\n}")

VGRID = """
    pub struct Lcg(u64);
    impl Lcg { fn unit(&mut self) -> f64 { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (self.0 >> 11) as f64 / (1u64 << 53) as f64 } }
    /// the cells of all ranks in a box of side 1 with m^3 particles, None if the code refuses the particles
    fn grid(ranks: usize, m: usize, periodic: bool, seed: u64) -> Option<Vec<(i32, ParticleId, GridCell)>> {
        use crate::components::Position;
        use crate::domain::{decomposition::{Decomposition, KeyCounter}, IntoKey};
        use crate::units::VecLength;
        use bevy_ecs::prelude::{Commands, Entity, Res};
        let mut g = Lcg(seed);
        let p: Vec<Point3d> = (0..m * m * m).map(|i| (Point3d::new((i % m) as f64, (i / m % m) as f64, (i / m / m) as f64) + Point3d::new(g.unit(), g.unit(), g.unit())) / m as f64).collect();
        let v = |p: Point3d| VecLength::new_unchecked(p);
        let ext = crate::domain::Extent::from_min_max(v(Point3d::ZERO), v(Point3d::ONE));
        let keys: Vec<_> = p.iter().map(|p| v(*p).into_key(&ext)).collect();
        let deco = { let k = keys.clone(); move || -> crate::domain::DecompositionState { Decomposition::new(&mut KeyCounter::new(k.clone()), ranks) } };
        let d = deco();
        let mut count = vec![0; ranks];
        let ids: Vec<ParticleId> = keys.iter().map(|k| { let rank = d.get_owning_rank(*k); count[rank as usize] += 1; ParticleId { index: count[rank as usize] - 1, rank } }).collect();
        let (_, res) = mpi::simulate(ranks, move |rank| {
            let mine: Vec<usize> = (0..p.len()).filter(|i| ids[*i].rank == rank).collect();
            let pos: Vec<Position> = mine.iter().map(|i| Position(v(p[*i]))).collect();
            let id: Vec<ParticleId> = mine.iter().map(|i| ids[*i]).collect();
            let mut d = deco();
            crate::domain::systems::vx_set_extents(&mut d, pos.iter().collect());
            let leaf: Vec<crate::domain::LeafData> = mine.iter().map(|i| crate::domain::LeafData { id: ids[*i], pos: v(p[*i]) }).collect();
            let box_ = crate::simulation_box::SimulationBox::new(ext.clone());
            let tree = crate::domain::QuadTree::new(&crate::quadtree::QuadTreeConfig { max_depth: 20, max_num_particles_per_leaf: 3 }, leaf, &ext);
            let map: crate::domain::IdEntityMap = id.iter().enumerate().map(|(k, i)| (*i, Entity(k as u64))).collect();
            let commands = Commands::default();
            let q: Vec<(Entity, &ParticleId, &Position)> = (0..id.len()).map(|k| (Entity(k as u64), &id[k], &pos[k])).collect();
            construct_grid_system(commands.clone(), crate::prelude::Particles(q), Res(&tree), Res(&d), Res(&box_), Res(&map), Res(&crate::parameters::SweepParameters { periodic }), Res(&constructor::parallel::plugin::GridParameters { initial_search_radius: None }));
            let e = commands.entities.borrow();
            id.iter().enumerate().map(|(k, i)| (rank, *i, e[k].iter().find_map(|b| b.downcast_ref::<GridCell>().cloned()).unwrap())).collect::<Vec<_>>()
        });
        if res.iter().any(|r| matches!(r, Err(e) if e.contains("Degenerate") || e.contains("two periodic images"))) { return None }
        Some(res.into_iter().flat_map(|r| r.unwrap_or_else(|e| panic!("{e}"))).collect())
    }
    fn fills(ranks: usize, m: usize) {
        let mut done = 0;
        for seed in 1..13 {
            let Some(g) = grid(ranks, m, true, seed) else { continue };
            done += 1;
            let v: f64 = g.iter().map(|c| c.2.volume.value_unchecked()).sum();
            assert!((v - 1.0).abs() < 1e-9, "{ranks} ranks, {m}^3 particles, seed {seed}: the cells have the volume {v} together");
        }
        assert!(done > 2);
    }
"""
HI, HC, VC, VD = "src/voronoi/constructor/halo_iteration.rs", "src/voronoi/constructor/halo_cache.rs", "src/voronoi/constructor/mod.rs", "src/voronoi/delaunay/mod.rs"
seed(id="C30-a", property="C30", needs="a particle of which a rank needs two periodic images, or a particle and an image of it",
  breaks="a rank gets only the first image of every particle: cells at the other images are too large and have wrong neighbours",
  edits=[(HC, "    sent_previously: HashSet<(Rank, (ParticleId, WrapType<D>))>,", "    sent_previously: HashSet<(Rank, ParticleId)>,\n    wrap: std::marker::PhantomData<WrapType<D>>,"),
         (HC, "        iter.filter(move |(_, id, wrap_type)| {\n            self.sent_previously.insert((rank, (*id, *wrap_type)))\n        })", "        iter.filter(move |(_, id, _)| self.sent_previously.insert((rank, *id)))")],
  kit=vorokit(VGRID + """
    pub fn run() { fills(1, 5); fills(2, 5) }"""))
seed(id="C30-b", property="C30", needs="a box that is not periodic, on more than one rank",
  breaks="cells at the border of the box have neighbours on other ranks across the box",
  edits=[(VC, "            ParticleType::RemotePeriodic(_) => ParticleType::Boundary,", "            ParticleType::RemotePeriodic(n) => ParticleType::Remote(grid::RemoteNeighbour {\n                id: n.id,\n                rank: n.rank,\n            }),")],
  kit=vorokit(VGRID + """
    pub fn run() {
        let mut done = 0;
        for seed in 1..13 {
            let Some(g) = grid(2, 5, false, seed) else { continue };
            done += 1;
            // all faces of a cell towards neighbours: seen from both sides
            for (rank, id, c) in &g {
                for (f, n) in &c.neighbours {
                    let (other, key) = match n { ParticleType::Local(n) => (*rank, *n), ParticleType::Remote(n) => (n.rank, n.id), ParticleType::Boundary => continue, _ => panic!("{n:?} in a box that is not periodic") };
                    let o = g.iter().find(|c| c.0 == other && c.1 == key).unwrap();
                    let ok = o.2.neighbours.iter().any(|(b, m)| match m { ParticleType::Local(m) => m == id, ParticleType::Remote(m) => m.id == *id, _ => false } && (b.normal + f.normal).length().value_unchecked() < 1e-6);
                    let across = g.iter().filter(|c| c.0 == *rank && c.1 == *id).any(|c| c.2.neighbours.iter().filter(|(_, m)| m == n).count() > 1);
                    assert!(ok && !across, "seed {seed}: {id:?} has the neighbour {n:?} more than once or without being its neighbour");
                }
            }
            let dir = |x: f64, y: f64, z: f64| Point3d::new(x, y, z);
            for d in [dir(1.0, 0.0, 0.0), dir(0.0, 1.0, 0.0), dir(0.0, 0.0, 1.0)] {
                for s in [1.0, -1.0] {
                    let area: f64 = g.iter().flat_map(|c| c.2.neighbours.iter()).filter(|(_, n)| matches!(n, ParticleType::Boundary)).map(|(f, _)| f.area.value_unchecked() * (f.normal.value_unchecked().dot(d) * s).max(0.0)).sum();
                    assert!(area > 0.9, "seed {seed}: the border of the box has the area {area} towards {:?}", d * s);
                }
            }
        }
        assert!(done > 2);
    }"""))
seed(id="C30-c", property="C30", needs="a tetrahedron at the border of the domain of a rank that is small enough to be decided by the first search, with another particle of the other rank in its circumsphere, on the far side from its first local point",
  breaks="the first search for haloes is around a vertex of the tetrahedron instead of the centre of its circumsphere: haloes in the rest of the sphere are never found",
  edits=[(HI, "        let point = if radius >= max_necessary_radius {", "        let point = if undecided.search_radius.is_some() && radius >= max_necessary_radius {")],
  kit=vorokit(VGRID + """
    pub fn run() { fills(1, 5); fills(2, 6); fills(3, 6) }"""))
seed(id="C30-d", property="C30", needs="a flat tetrahedron at the hull of the points whose circumsphere reaches out to a corner of the initial tetrahedron",
  breaks="tetrahedra are not flipped if it is a corner of the initial tetrahedron that lies in their circumsphere: the triangulation is not Delaunay",
  edits=[(VD, "        let tetra_data = self.get_remapped_tetra_data(tetra);\n        tetra_data.circumcircle_contains", "        if self.point_kinds[&point] == PointKind::Outer {\n            return false;\n        }\n        let tetra_data = self.get_remapped_tetra_data(tetra);\n        tetra_data.circumcircle_contains")],
  kit=vorokit(VGRID + """
    pub fn run() {
        use crate::voronoi::delaunay::dimension::{DTetra, DTetraData};
        for seed in 1..20 {
            let mut g = Lcg(seed);
            let p: Vec<Point3d> = (0..30).map(|_| Point3d::new(g.unit(), g.unit(), g.unit())).collect();
            let t = Constructor::<ThreeD>::only_delaunay(p.iter());
            for (_, tet) in t.tetras.iter() {
                let d = t.get_tetra_data(tet);
                let c = d.get_center_of_circumcircle();
                let r = c.distance(t.get_original_point(tet.points().next().unwrap()));
                for (i, q) in t.iter_original_points() {
                    assert!(tet.contains_point(i) || q.distance(c) > r * (1.0 - 1e-6), "seed {seed}: {q:?} is inside the circumsphere of {d:?}");
                }
            }
        }
    }"""))
