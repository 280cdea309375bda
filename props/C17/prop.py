import parts
import units

LEVEL = "proof"
O = "src/communication/communicated_option.rs"
N = "src/quadtree/node_index.rs"
LIB = units.FEATURES + """
pub mod units; pub mod cosmology; pub mod parameters { pub use crate::cosmology::Cosmology; }
pub mod communication { pub mod communicated_option; pub mod identified; pub type Rank = mpi::Rank; }
pub mod quadtree;
pub mod peano_hilbert; pub mod extent; pub mod dimension; pub mod particle; pub mod simulation_box;
pub mod named {}
pub mod prelude { pub use crate::units; pub use crate::units::helpers::Float; pub use crate::units::helpers::MVec; pub use crate::particle::ParticleId; }
pub mod sweep { pub mod direction; pub mod task; pub use crate::chemistry::Chemistry; pub type Rate<C> = <C as Chemistry>::Photons; }
pub mod chemistry {
    pub trait Chemistry { type Photons: mpi::traits::Equivalence + Clone + std::fmt::Debug; }
    #[derive(Clone, Debug)] pub struct Plain;
    impl Chemistry for Plain { type Photons = f64; }
}
pub mod voronoi {
    pub type Point2d = glam::DVec2; pub type Point3d = glam::DVec3;
    pub mod math { pub mod precision_types; pub mod traits; }
    pub mod primitives { pub type Float = f64; }
    pub use math::traits::{DVector, MinMax};
    pub mod constructor { pub mod halo_iteration; pub mod parallel { pub mod mpi_types; pub use super::halo_iteration::SearchData; } }
}
"""


def run(ctx):
    ctx.assumptions += [
        "std::mem::MaybeUninit: new holds the value given, uninit holds none, reading needs a value (assumed contract; an unmet precondition is exactly a read of a missing value)",
        "what a datatype transfers is its type map (stand-in for rsmpi and MPI: displacements, counts, extent rounded up to the strictest alignment)",
        "payloads of alignment up to 8; layouts do not depend on values, so one run per type decides them; message types whose layout is derived use rsmpi's derive (stand-in here)",
    ]
    ctx.verus("verus.rs", [O + "::" + f for f in ("From<Option>::from", "From<CommunicatedOption>::from", "clone")] + [N + "::" + f for f in ("From<u8>::from", "From<NodeIndex>::from")])
    e = parts.entry
    ctx.concrete(
        "c17",
        "bounded: type maps of the message types and of optional, identified and box values over 12 payload types; seeded values; node indices, bytes and wrap types exhaustively",
        files=units.files() + [
            units.cosmology(),
            {"src": O},
            {"src": "src/communication/identified.rs"},
            {"src": N, "append": open(ctx.dir + "/node.rs").read() + open(ctx.dir + "/contract.rs").read()},
            TREE,
            e("src/peano_hilbert.rs", False),
            e("src/extent.rs", False),
            e("src/voronoi/math/traits.rs", False),
            parts.precision(False),
            {"src": "src/dimension.rs", "keep": ["use std::fmt::Debug", "trait Dimension", "type Point", "type WrapType", "struct TwoD", "struct ThreeD"], "transform": [slim], "append": DIM},
            {"src": "src/particle.rs", "keep": ["use mpi", "use crate::communication", "struct ParticleId"], "append": "use vxderive::{Component, Named};"},
            {"src": "src/simulation_box.rs", "keep": ["enum WrapType", "struct PeriodicWrapType2d", "struct PeriodicWrapType3d", "impl std::fmt::Debug for WrapType", "impl std::fmt::Debug for PeriodicWrapType2d", "impl std::fmt::Debug for PeriodicWrapType3d"]},
            {"src": "src/sweep/direction/mod.rs", "keep": ["use derive_more", "use mpi", "struct DirectionIndex"]},
            {"src": "src/sweep/task.rs"},
            {"src": "src/voronoi/constructor/halo_iteration.rs", "keep": ["struct SearchData", "struct SearchResult"], "append": "use crate::dimension::*; use crate::prelude::*;"},
            {"src": "src/voronoi/constructor/parallel/mpi_types.rs"},
        ],
        lib_rs=LIB,
        main_rs="fn main() { c17::quadtree::node_index::vx::run() }\n",
        deps=["mpi", "derive_custom", "glam", "num", "derive_more", "bevy_ecs", "vxcore", parts.VXDERIVE],
    )
    ctx.concrete(
        "c17two",
        "exhaustive (2d build): all node indices and bytes",
        files=[{"src": N, "append": open(ctx.dir + "/node.rs").read()}, TREE],
        lib_rs="pub mod quadtree;\n",
        main_rs="fn main() { c17two::quadtree::node_index::vxn::run() }\n",
        deps=["vxcore"],
        default_features=("2d",),
    )


TREE = {"src": "src/quadtree/mod.rs", "keep": ["const NUM_DIMENSIONS", "const TWO_TO_NUM_DIMENSIONS", "mod node_index"], "edits": [("mod node_index", "pub mod node_index")]}


def slim(t):
    """The associated types of Dimension without the bounds that lead into the rest of the code."""
    import re

    t = re.sub(r"type Point: [^;]*;", "type Point: Clone + Copy + Debug;", t)
    t = re.sub(r"type UnitPoint: [^;]*;", "", t)
    return re.sub(r"fn remap_point\([^;]*;", "", t)


DIM = """
impl Dimension for TwoD { const NUM: i32 = 2; type Length = f64; type Point = glam::DVec2; type WrapType = crate::simulation_box::PeriodicWrapType2d; }
impl Dimension for ThreeD { const NUM: i32 = 3; type Length = f64; type Point = glam::DVec3; type WrapType = crate::simulation_box::PeriodicWrapType3d; }
"""
