"""Mirror crate of the Voronoi grid: the whole of src/voronoi with the tree, the decomposition and the
communication it is built on; MPI ranks are threads over the stand-in for MPI."""
import boxmirror
import parts
import units

DL = "src/voronoi/delaunay/"
CO = "src/voronoi/constructor/"
COMM = ("data_by_rank", "sized_communicator", "identified", "mpi_world", "communicated_option", "exchange_communicator")
LIB = units.FEATURES + """
pub mod units; pub mod cosmology; pub mod extent; pub mod simulation_box; pub mod dimension; pub mod particle; pub mod peano_hilbert; pub mod quadtree; pub mod voronoi;
pub mod communication {
    pub mod data_by_rank; pub mod sized_communicator; pub mod identified; pub mod mpi_world; pub mod communicated_option; pub mod exchange_communicator;
    pub use data_by_rank::DataByRank; pub use sized_communicator::SizedCommunicator; pub use identified::Identified; pub use mpi_world::MpiWorld; pub use communicated_option::CommunicatedOption; pub use exchange_communicator::ExchangeCommunicator;
    pub mod communicator { pub type Communicator<T> = super::mpi_world::MpiWorld<T>; }
    pub type Rank = mpi::Rank;
}
pub mod components { #[derive(Clone)] pub struct Position(pub crate::units::VecLength); impl std::ops::Deref for Position { type Target = crate::units::VecLength; fn deref(&self) -> &crate::units::VecLength { &self.0 } } }
pub mod parameters { pub use crate::cosmology::Cosmology; pub use crate::simulation_box::{SimulationBox, SimulationBoxParameters}; pub struct SweepParameters { pub periodic: bool } }
pub mod named {}
pub mod hash_map {
    type S = std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>;
    pub type HashMap<K, V> = std::collections::HashMap<K, V, S>; pub type HashSet<K> = std::collections::HashSet<K, S>; pub type BiMap<K, V> = bimap::BiMap<K, V>;
}
pub mod prelude {
    pub use crate::units; pub use crate::units::helpers::Float; pub use crate::units::helpers::MVec; pub use crate::particle::ParticleId; pub use crate::simulation_box::SimulationBox; pub struct Simulation; pub trait SubsweepPlugin {}
    /// stand-in for the query of bevy: the components themselves
    pub struct Particles<T>(pub Vec<T>);
    impl<T: Copy> Particles<T> { pub fn iter(&self) -> impl Iterator<Item = T> + '_ { self.0.iter().copied() } }
}
pub mod sweep { pub mod grid; }
pub mod domain {
    pub mod extent; pub mod quadtree; pub mod decomposition; pub mod key; pub mod systems;
    pub use extent::Extent; pub use quadtree::{LeafData, NodeData, QuadTree}; pub type Work = u64; pub type DomainKey = crate::peano_hilbert::PeanoKey3d; pub type DecompositionState = decomposition::Decomposition<DomainKey>;
    pub use key::{IntoKey, Key}; pub type IdEntityMap = crate::hash_map::BiMap<crate::particle::ParticleId, bevy_ecs::prelude::Entity>;
}
"""
DEPS = ["mpi", "derive_custom", "derive_more", "num", "bevy_ecs", "array-init", "log", "lazy_static", "generational-arena", "bimap", "ordered-float", "glam", parts.VXDERIVE]
SYSTEMS = """
use super::*;
use crate::communication::*;
use crate::components::Position;
use crate::prelude::*;
use bevy_ecs::prelude::*;
pub fn vx_set_extents(d: &mut DecompositionState, particles: Vec<&Position>) { set_domain_extents_system(ResMut(d), Particles(particles)) }
"""


def files(contract="", search=""):
    e = lambda src, append="", **kw: parts.entry(src, False, append=append, **kw)
    q = dict(e("src/quadtree/config.rs"), transform=[boxmirror.plain, parts.noserde])
    return units.files() + [
        units.cosmology(False),
        e("src/extent.rs"),
        e("src/domain/extent.rs"),
        e("src/dimension.rs"),
        {"src": "src/particle.rs", "keep": ["use mpi", "use crate::communication", "struct ParticleId", "struct HaloParticle"], "append": "use vxderive::{Component, Named};"},
        dict(e(boxmirror.S, drop=["impl SubsweepPlugin for SimulationBoxPlugin"]), transform=[boxmirror.plain, parts.noserde]),
        e("src/peano_hilbert.rs"),
        e("src/quadtree/mod.rs"),
        e("src/quadtree/radius_search.rs"),
        q,
        e("src/quadtree/node_index.rs"),
        e("src/domain/quadtree.rs"),
        e("src/domain/key.rs"),
        e("src/domain/decomposition.rs"),
        {"src": "src/domain/mod.rs", "keep": ["fn communicate_extents", "fn set_domain_extents_system"], "append": SYSTEMS, "dst": "domain/systems.rs"},
        e("src/sweep/grid/mod.rs", drop=["mod cartesian", "use cartesian"]),
        e("src/sweep/grid/cell.rs"),
    ] + [{"src": "src/communication/%s.rs" % f} for f in COMM] + [
        e("src/voronoi/%s.rs" % f) for f in ("cell", "indexed_arena", "triangulation_data", "utils", "visualizer", "math/mod", "math/precision_types", "math/traits", "math/utils", "primitives/mod", "primitives/line", "primitives/polygon3d", "primitives/tetrahedron", "primitives/triangle")
    ] + [
        e("src/voronoi/mod.rs", contract),
        e(DL + "mod.rs"),
        e(DL + "dimension.rs"), e(DL + "face_info.rs"), e(DL + "impl_2d.rs"), e(DL + "impl_3d.rs"), e(DL + "point_location.rs"),
        e(CO + "mod.rs"), e(CO + "halo_cache.rs"), e(CO + "halo_iteration.rs"), e(CO + "local.rs"),
        e(CO + "parallel/mod.rs", search), e(CO + "parallel/mpi_types.rs"),
        dict(e(CO + "parallel/plugin.rs", drop=["impl SubsweepPlugin for ParallelVoronoiGridConstruction", "use crate::prelude::StartupStages", "use crate::simulation"]), transform=[boxmirror.plain, parts.noserde]),
    ]


# ---- over symbolic reals: the store, the split and the flips
import geomirror

I3 = DL + "impl_3d.rs"
_l = geomirror.LIB
_i = _l.index("    #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)] pub struct PointIndex")
SYMLIB = (
    _l[:_i].replace("pub mod primitives { ", "pub mod indexed_arena; pub mod primitives { pub mod line; ")
    .replace("type Key; fn", "type Key: Ord + Copy; fn")
    .replace("pub type HashMap<K, V> =", "pub type BiMap<K, V> = bimap::BiMap<K, V>; pub type HashMap<K, V> =")
    .replace("pub mod prelude {", "pub mod communication { pub type Rank = mpi::Rank; }\npub mod prelude {")
    + """    pub mod delaunay;
    pub use delaunay::{PointIndex, Triangulation}; pub use delaunay::dimension::{DDimension, DTetra};
    pub mod visualizer { pub trait Visualizable {} impl<T> Visualizable for T {} }
}
"""
)
SYMDEPS = geomirror.DEPS + ["generational-arena", "bimap", "glam@sym", "ordered-float@sym", "symx"]


def keyed(t):
    return t.replace("type Point: Clone + Copy + DVector<Float = Float> + Debug;", "type Point: Clone + Copy + DVector<Float = Float> + Debug + IntoKey;")


def symbolic_files(contract):
    fs = []
    for f in geomirror.files(True):
        if f["src"] == geomirror.DD:
            f = {"src": geomirror.DD}
        elif f["src"] == geomirror.DI:
            f["transform"] = [geomirror.slim, keyed] + f["transform"][1:]
        fs.append(f)
    plain = lambda src, append="": {"src": src, "append": append}
    return fs + [
        plain(DL + "mod.rs", "pub use impl_3d::vx;\n"), plain(DL + "impl_2d.rs"), plain(I3, contract), parts.entry(DL + "point_location.rs", True),
        plain("src/voronoi/indexed_arena.rs"), plain("src/voronoi/primitives/line.rs"),
    ]
