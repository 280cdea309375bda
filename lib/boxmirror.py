"""Mirror crate of the periodic box: src/simulation_box.rs and what it stands on."""
import parts
import units

S = "src/simulation_box.rs"
F = "src/voronoi/constructor/parallel/mod.rs"
E = "src/extent.rs"
D = "src/domain/extent.rs"
T = "src/voronoi/math/traits.rs"
LIB = units.FEATURES + """
pub mod units; pub mod cosmology; pub mod extent; pub mod simulation_box; pub mod dimension; pub mod particle;
pub mod communication { pub type Rank = mpi::Rank; }
pub mod parameters { pub use crate::cosmology::Cosmology; pub use crate::simulation_box::{SimulationBox, SimulationBoxParameters}; }
pub mod named {}
pub mod prelude { pub use crate::units; pub use crate::units::helpers::Float; pub use crate::units::helpers::MVec; pub use crate::particle::ParticleId; pub use crate::simulation_box::SimulationBox; pub struct Simulation; pub trait SubsweepPlugin {} }
pub mod voronoi {
    pub type Point2d = glam::DVec2; pub type Point3d = glam::DVec3;
    pub mod math { pub mod precision_types; pub mod traits; }
    pub use math::traits::{DVector, MinMax};
    pub mod constructor { pub mod halo_iteration; pub mod parallel; pub use halo_iteration::SearchData; }
}
pub mod peano_hilbert { #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)] pub struct PeanoKey2d(pub u64); #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)] pub struct PeanoKey3d(pub u128); }
pub mod domain {
    pub mod extent;
    pub use extent::Extent;
    // keys are not under this contract (they are C02's)
    pub mod key {
        use crate::peano_hilbert::*;
        pub trait IntoKey: Sized { type Key; fn into_key(self, e: &crate::extent::Extent<Self>) -> Self::Key; }
        impl IntoKey for glam::DVec2 { type Key = PeanoKey2d; fn into_key(self, _: &crate::extent::Extent<Self>) -> PeanoKey2d { unreachable!() } }
        impl IntoKey for glam::DVec3 { type Key = PeanoKey3d; fn into_key(self, _: &crate::extent::Extent<Self>) -> PeanoKey3d { unreachable!() } }
    }
    pub use key::IntoKey;
}
"""
DEPS = ["mpi", "derive_custom", "derive_more", "num", "bevy_ecs", parts.VXDERIVE]


def slim(t):
    """The associated types of Dimension without the bounds that lead into the rest of the code."""
    import re

    t = re.sub(r"type Point: [^;]*;", "type Point: Clone + Copy + Debug;", t)
    t = re.sub(r"type UnitPoint: [^;]*;", "", t)
    return re.sub(r"fn remap_point\([^;]*;", "", t)


def plain(t):
    """#[subsweep_parameters] is a derive of serde here; its helper attribute goes with it."""
    import re

    t = re.sub(r"#\[serde\([^\]]*\)\]\n", "", t)
    return t


DIM = """
impl Dimension for TwoD { const NUM: i32 = 2; type Length = vxfloat; type Point = glam::DVec2; type WrapType = crate::simulation_box::PeriodicWrapType2d; }
impl Dimension for ThreeD { const NUM: i32 = 3; type Length = vxfloat; type Point = glam::DVec3; type WrapType = crate::simulation_box::PeriodicWrapType3d; }
"""


def files(sym, box, search):
    e = lambda src, append="", **kw: parts.entry(src, sym, append=append, **kw)
    return units.files(symbolic=sym) + [
        units.cosmology(sym),
        e(E),
        e(T),
        parts.precision(sym),
        e(D),
        {"src": "src/dimension.rs", "keep": ["use std::fmt::Debug", "trait Dimension", "type Point", "type WrapType", "struct TwoD", "struct ThreeD", "type ActiveDimension", "type ActiveWrapType"], "transform": [slim], "append": DIM.replace("vxfloat", "crate::prelude::Float")},
        {"src": "src/particle.rs", "keep": ["use mpi", "use crate::communication", "struct ParticleId"], "append": "use vxderive::{Component, Named};"},
        dict(parts.entry(S, sym, append=box, drop=["impl SubsweepPlugin for SimulationBoxPlugin"]), transform=[plain] + parts.entry(S, sym)["transform"]),
        {"src": "src/voronoi/constructor/halo_iteration.rs", "keep": ["struct SearchData"], "append": "use crate::dimension::*; use crate::prelude::*;", "edits": []},
        dict(parts.entry(F, sym, keep=["fn find_wrapped_point"], append=search), dst="voronoi/constructor/parallel.rs"),
    ]


USES = "use crate::dimension::*; use crate::prelude::*; use crate::units::*; use super::SearchData;\n"


