"""Mirror crate of the keys of positions: src/domain/key.rs over the curve, extents and units."""
import parts
import units

K = "src/domain/key.rs"
LIB = units.FEATURES + """
pub mod units; pub mod cosmology; pub mod parameters { pub use crate::cosmology::Cosmology; pub struct SimulationBox; }
pub mod prelude { pub use crate::units; pub use crate::units::helpers::Float; pub use crate::units::helpers::MVec; }
pub mod peano_hilbert; pub mod extent;
pub mod dimension {
    pub trait Dimension { const NUM: i32; }
    pub struct TwoD; pub struct ThreeD;
    impl Dimension for TwoD { const NUM: i32 = 2; } impl Dimension for ThreeD { const NUM: i32 = 3; }
}
pub mod domain { pub mod key; }
pub mod voronoi {
    pub type Point2d = glam::DVec2; pub type Point3d = glam::DVec3;
    pub mod math { pub mod precision_types; pub mod traits; }
    pub mod primitives { pub type Float = f64; }
    pub use math::traits::{DVector, MinMax};
}
"""
DEPS = ["mpi", "bevy_ecs", "derive_custom", "derive_more", "diman", "lazy_static", "log", "glam", "num", parts.VXDERIVE]


def files(contract=""):
    return units.files() + [
        units.cosmology(),
        {"src": K, "append": contract},
        parts.entry("src/peano_hilbert.rs", False),
        parts.entry("src/extent.rs", False),
        parts.entry("src/voronoi/math/traits.rs", False),
        parts.precision(False),
    ]
