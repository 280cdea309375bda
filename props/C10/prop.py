import parts
import units

LEVEL = "proof"
D = "src/domain/decomposition.rs"
K = "src/domain/key.rs"
LIB = units.FEATURES + """
pub mod communication {
    pub mod data_by_rank; pub mod sized_communicator; pub mod identified; pub mod mpi_world;
    pub use data_by_rank::DataByRank; pub use sized_communicator::SizedCommunicator; pub use identified::Identified; pub use mpi_world::MpiWorld;
    pub mod communicator { pub type Communicator<T> = super::mpi_world::MpiWorld<T>; }
    pub type Rank = mpi::Rank;
}
pub mod units; pub mod cosmology; pub mod parameters { pub use crate::cosmology::Cosmology; pub struct SimulationBox; }
pub mod prelude { pub use crate::units; pub use crate::units::helpers::Float; pub use crate::units::helpers::MVec; }
pub mod peano_hilbert; pub mod extent;
pub mod dimension {
    pub trait Dimension { const NUM: i32; }
    pub struct TwoD; pub struct ThreeD;
    impl Dimension for TwoD { const NUM: i32 = 2; } impl Dimension for ThreeD { const NUM: i32 = 3; }
}
pub mod domain { pub mod decomposition; mod key; pub use key::IntoKey; pub use key::Key; pub type Work = u64; pub type DomainKey = crate::peano_hilbert::PeanoKey3d; }
pub mod quadtree { pub mod radius_search { } }
pub mod voronoi {
    pub type Point2d = glam::DVec2; pub type Point3d = glam::DVec3;
    pub mod math { pub mod precision_types; pub mod traits; }
    pub mod primitives { pub type Float = f64; }
    pub use math::traits::{DVector, MinMax};
}
"""


def run(ctx):
    ctx.assumptions += [
        "keys of particles are below the largest number of their type (grid positions at the very end of the curve have no next key)",
        "every rank holds at least one particle before the decomposition (a rank without one stops with a panic)",
        "verus: the derived order of a key is the order of its number; slice::partition_point and sort behave like the verified helper / as specified",
        "verus: what the search for a cut is told by the load (the closure over the counter) is left open, except that it ends at the greatest depth: the cut it returns lies in the range whatever the loads are; equal shares are decided by the executable contract",
        "the sum of the loads over ranks (MPI) is under the executable contract only",
    ]
    ctx.verus("verus.rs", [D + "::" + f for f in ("binary_search", "Decomposition::new", "Decomposition::get_owning_rank", "Decomposer::find_segments", "Decomposer::find_cut_for_next_segment", "Decomposer::get_search_result", "Decomposer::get_loads", "KeyCounter::new", "KeyCounter::load_in_range", "LoadCounter::total_load")] + [K + "::PeanoKey%s::%s" % (d, f) for d in ("2d", "3d") for f in ("middle", "next")])
    ctx.concrete(
        "c10",
        "bounded: seeded sets of up to 120 keys (uniform, dense, duplicated, extreme, clustered, spread out) on up to 14 ranks, 2D and 3D keys; counters on up to 14 simulated ranks",
        files=units.files() + [
            units.cosmology(),
            {"src": D, "drop": ["use crate::quadtree::radius_search::bounding_boxes_overlap_periodic", "impl Decomposition<DomainKey>"], "append": open(ctx.dir + "/contract.rs").read()},
            {"src": K},
            parts.entry("src/peano_hilbert.rs", False),
            parts.entry("src/extent.rs", False),
            parts.entry("src/voronoi/math/traits.rs", False),
            parts.precision(False),
        ] + [{"src": "src/communication/%s.rs" % f} for f in ("data_by_rank", "sized_communicator", "identified", "mpi_world")],
        lib_rs=LIB,
        main_rs="fn main() { c10::domain::decomposition::vx::run() }\n",
        deps=["mpi", "bevy_ecs", "derive_custom", "derive_more", "diman", "lazy_static", "log", "glam", "num", "vxcore", parts.VXDERIVE],
    )
