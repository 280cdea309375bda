import parts
import units

LEVEL = "proof"
E = "src/extent.rs"
D = "src/domain/extent.rs"
T = "src/voronoi/math/traits.rs"
LIB = units.FEATURES + """
pub mod units; pub mod cosmology; pub mod extent;
pub mod parameters { pub use crate::cosmology::Cosmology; }
pub mod prelude { pub use crate::units; pub use crate::units::helpers::Float; pub use crate::units::helpers::MVec; }
pub mod voronoi {
    pub type Point2d = glam::DVec2; pub type Point3d = glam::DVec3;
    pub mod math { pub mod precision_types; pub mod traits; }
    pub use math::traits::{DVector, MinMax};
}
pub mod peano_hilbert { #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)] pub struct PeanoKey2d(pub u64); #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)] pub struct PeanoKey3d(pub u128); }
pub mod domain {
    pub mod extent;
    // keys are not under this contract (they are C02's)
    pub mod key {
        use crate::peano_hilbert::*;
        pub trait IntoKey: Sized { type Key; fn into_key(self, e: &crate::extent::Extent<Self>) -> Self::Key; }
        impl IntoKey for glam::DVec2 { type Key = PeanoKey2d; fn into_key(self, _: &crate::extent::Extent<Self>) -> PeanoKey2d { unreachable!() } }
        impl IntoKey for glam::DVec3 { type Key = PeanoKey3d; fn into_key(self, _: &crate::extent::Extent<Self>) -> PeanoKey3d { unreachable!() } }
    }
    pub use key::IntoKey;
}
"""
DEPS = ["mpi", "derive_custom", "derive_more", "num", "bevy_ecs", parts.VXDERIVE]


def files(sym, append):
    return units.files(symbolic=sym) + [
        units.cosmology(sym),
        parts.entry(E, sym),
        parts.entry(T, sym),
        parts.precision(sym),
        parts.entry(D, sym, append=append),
    ]


def run(ctx):
    ctx.assumptions += [
        "over the reals: f64 taken as a real number (minimum, maximum and comparison are exact on floats; only the center and the enlarged box are rounded)",
        "number of points: 0 to 4 in one dimension, 0 to 3 in 2D, 0 to 2 in 3D in any positions (the loop body is the same for every further point); larger sets by the executable contract",
        "glam's min, max and arithmetic work per component (assumed contract; the executable contract uses the real glam)",
    ]
    ctx.symbolic(
        "c08s",
        [E + "::" + f for f in ("Extent::from_min_max", "Extent::including_periodic_images", "Extent::center", "Extent::side_lengths", "Extent::max_side_length", "get_extent_from_min_and_max_reduce", "Extent::from_points")]
        + [D + "::" + f for f in ("cube_from_side_length", "cube_from_side_length_centered", "get_all_encompassing", "from_positions", "cube_around_sphere", "get_extreme_points", "contains", "contains_extent", "get_quadrant_index", "get_quadrants", "max_side_length", "volume", "From<ExtentSpecification>")],
        files=files(True, open(ctx.dir + "/sym.rs").read()),
        lib_rs=LIB,
        main_rs="fn main() { c08s::domain::extent::vx::run() }\n",
        deps=DEPS + ["glam@sym", "symx"],
    )
    ctx.concrete(
        "c08",
        "bounded: seeded point sets of up to 300 points in 1D, 2D and 3D (coordinates equal, negative, of very different size), seeded boxes and points in them including on borders and centers",
        files=files(False, open(ctx.dir + "/contract.rs").read()),
        lib_rs=LIB,
        main_rs="fn main() { c08::domain::extent::vx::run() }\n",
        deps=DEPS + ["glam", "vxcore"],
    )
