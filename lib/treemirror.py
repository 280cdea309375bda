"""Mirror crate of the tree and its searches: src/quadtree, src/domain/{quadtree,extent,decomposition}.rs."""
import boxmirror
import parts

Q = "src/quadtree/mod.rs"
RS = "src/quadtree/radius_search.rs"
DE = "src/domain/decomposition.rs"
DM = "src/domain/mod.rs"
COMM = ("data_by_rank", "sized_communicator", "identified", "mpi_world", "communicated_option")
LIB = boxmirror.LIB.replace("pub mod communication { pub type Rank = mpi::Rank; }", """
pub mod communication {
    pub mod data_by_rank; pub mod sized_communicator; pub mod identified; pub mod mpi_world; pub mod communicated_option;
    pub use data_by_rank::DataByRank; pub use sized_communicator::SizedCommunicator; pub use identified::Identified; pub use mpi_world::MpiWorld; pub use communicated_option::CommunicatedOption;
    pub mod communicator { pub type Communicator<T> = super::mpi_world::MpiWorld<T>; }
    pub type Rank = mpi::Rank;
}
pub mod components { #[derive(Clone)] pub struct Position(pub crate::units::VecLength); }
pub mod quadtree;
""").replace("pub mod extent;\n    pub use extent::Extent;", """pub mod extent; pub mod quadtree; pub mod decomposition; pub mod systems;
    pub use extent::Extent; pub use quadtree::{LeafData, NodeData, QuadTree}; pub type Work = u64; pub type DomainKey = crate::peano_hilbert::PeanoKey3d; pub type DecompositionState = decomposition::Decomposition<DomainKey>;
""").replace("pub use crate::simulation_box::SimulationBox;", """pub use crate::simulation_box::SimulationBox;
    /// stand-in for the query of bevy: the components themselves
    pub struct Particles<T>(pub Vec<T>);
    impl<T: Copy> Particles<T> { pub fn iter(&self) -> impl Iterator<Item = T> + '_ { self.0.iter().copied() } }
""")
I = LIB.index("// keys are not under this contract")
J = LIB.index("pub use key::IntoKey;")
LIB = LIB[:I] + "pub mod key; pub use key::Key;\n    " + LIB[J:]
LIB = LIB.replace(LIB[LIB.index("pub mod peano_hilbert {") : LIB.index("pub mod domain {")], "pub mod peano_hilbert;\n")
DEPS = boxmirror.DEPS + ["log", "lazy_static"]
SYSTEMS = """
use super::*;
use crate::communication::*;
use crate::components::Position;
use crate::prelude::*;
use bevy_ecs::prelude::*;
pub fn vx_set_extents(d: &mut DecompositionState, particles: Vec<&Position>) { set_domain_extents_system(ResMut(d), Particles(particles)) }
"""


SYMLIB = boxmirror.LIB.replace("pub mod communication { pub type Rank = mpi::Rank; }", "pub mod communication { pub type Rank = mpi::Rank; }\npub mod quadtree;").replace("pub use extent::Extent;", """pub use extent::Extent; pub mod quadtree; pub use quadtree::{LeafData, NodeData, QuadTree}; pub type Work = u64; pub mod decomposition; pub type DomainKey = crate::peano_hilbert::PeanoKey3d;
    pub use key::Key;
    pub fn vx_set(d: &mut decomposition::Decomposition<DomainKey>, e: Vec<Option<Extent>>) { d.set_extents(e) }
""").replace("pub trait IntoKey", "pub trait Key {} impl Key for PeanoKey3d {}\n        pub trait IntoKey")
SYMDECOMP = """
pub fn vx_decomposition() -> Decomposition<DomainKey> { Decomposition { num_ranks: 2, cuts: vec![], loads: vec![], extents: vec![] } }
"""
WALK = parts.without_methods("new", "get_owning_rank", "get_imbalance", "min_load", "max_load", "log_imbalance")


def symbolic_files(search):
    return boxmirror.files(True, "", boxmirror.USES) + [
        parts.entry(Q, True, append="pub use radius_search::vx;\n"),
        parts.entry(RS, True, append=search),
        dict(parts.entry("src/quadtree/config.rs", True), transform=[boxmirror.plain, parts.noserde]),
        parts.entry("src/quadtree/node_index.rs", True),
        parts.entry("src/domain/quadtree.rs", True),
        dict(parts.entry(DE, True, keep=["use super", "use crate::communication::Rank", "use crate::extent", "use crate::parameters", "use crate::quadtree", "use crate::units", "struct Decomposition", "impl<K: Key> Decomposition<K>", "impl Decomposition<DomainKey>"], append="use bevy_ecs::prelude::Resource;\n" + SYMDECOMP), transform=[WALK] + parts.entry(DE, True)["transform"]),
    ]


def files(search):
    fs = boxmirror.files(False, "", boxmirror.USES)
    return fs + [
        parts.entry(Q, False, append="pub use radius_search::vx;\n"),
        parts.entry(RS, False, append=search),
        dict(parts.entry("src/quadtree/config.rs", False), transform=[boxmirror.plain, parts.noserde]),
        {"src": "src/quadtree/node_index.rs"},
        {"src": "src/domain/quadtree.rs"},
        {"src": "src/domain/key.rs"},
        parts.entry("src/peano_hilbert.rs", False),
        {"src": DE, "drop": []},
        {"src": DM, "keep": ["fn communicate_extents", "fn set_domain_extents_system"], "append": SYSTEMS, "dst": "domain/systems.rs"},
    ] + [{"src": "src/communication/%s.rs" % f} for f in COMM]
