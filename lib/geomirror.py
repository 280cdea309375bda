"""Mirror crate of the geometric predicates: src/voronoi/primitives and what they stand on."""
import re

import parts
import units

TR = "src/voronoi/primitives/triangle.rs"
TE = "src/voronoi/primitives/tetrahedron.rs"
PO = "src/voronoi/primitives/polygon3d.rs"
UT = "src/voronoi/utils.rs"
MU = "src/voronoi/math/utils.rs"
DD = "src/voronoi/delaunay/dimension.rs"
DI = "src/dimension.rs"
LIB = "#![feature(generic_const_exprs, adt_const_params)]\n#![allow(incomplete_features)]\n" + """
pub mod units; pub mod cosmology; pub mod extent; pub mod dimension;
pub mod parameters { pub use crate::cosmology::Cosmology; }
pub mod hash_map { pub type HashSet<T> = std::collections::HashSet<T>; pub type HashMap<K, V> = std::collections::HashMap<K, V>; }
pub mod prelude { pub use crate::units; pub use crate::units::helpers::Float; pub use crate::units::helpers::MVec; }
pub mod simulation_box { #[derive(Clone, Copy, PartialEq, Eq, Hash, Default, Debug)] pub struct PeriodicWrapType2d; #[derive(Clone, Copy, PartialEq, Eq, Hash, Default, Debug)] pub struct PeriodicWrapType3d; }
pub mod peano_hilbert { #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)] pub struct PeanoKey2d(pub u64); #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)] pub struct PeanoKey3d(pub u128); }
pub mod domain {
    pub mod extent;
    pub use extent::Extent;
    pub mod key {
        use crate::peano_hilbert::*;
        pub trait IntoKey: Sized { type Key; fn into_key(self, e: &crate::extent::Extent<Self>) -> Self::Key; }
        impl IntoKey for glam::DVec2 { type Key = PeanoKey2d; fn into_key(self, _: &crate::extent::Extent<Self>) -> PeanoKey2d { unreachable!() } }
        impl IntoKey for glam::DVec3 { type Key = PeanoKey3d; fn into_key(self, _: &crate::extent::Extent<Self>) -> PeanoKey3d { unreachable!() } }
    }
    pub use key::IntoKey;
}
pub mod voronoi {
    pub mod math { pub mod precision_types; pub mod traits; pub mod utils; }
    pub mod utils;
    pub mod primitives { pub mod triangle; pub mod tetrahedron; pub mod polygon3d; pub type Float = crate::prelude::Float; pub type Point2d = glam::DVec2; pub type Point3d = glam::DVec3; }
    pub use primitives::{Point2d, Point3d};
    pub use math::traits::{DVector, MinMax};
    #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)] pub struct PointIndex(pub usize);
    pub mod delaunay {
        pub mod dimension;
        pub use crate::dimension::Point;
        pub use super::PointIndex;
        #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)] pub struct FaceIndex(pub usize);
        #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)] pub struct TetraIndex(pub usize);
        pub mod face_info;
    }
}
"""
DEPS = ["mpi", "derive_custom", "derive_more", "num", "bevy_ecs", "array-init", parts.VXDERIVE]
# of dimension.rs without the keys, the visualizer and the wrap types
SIMPLE = "\npub trait DDimension: Dimension {}\nimpl DDimension for crate::dimension::TwoD {}\nimpl DDimension for crate::dimension::ThreeD {}\n"


def slim(t):
    t = re.sub(r"type Point: [^;]*;", "type Point: Clone + Copy + DVector<Float = Float> + Debug;", t)
    t = re.sub(r"type UnitPoint: [^;]*;", "type UnitPoint;", t)
    return t


def lib(mods=""):
    return LIB + mods


def files(sym, triangle="", tetra="", polygon="", dim="", math="", utils=""):
    e = lambda src, append="", **kw: parts.entry(src, sym, append=append, **kw)
    m = e(MU, math)
    if sym:
        m["edits"] = []
    return units.files(symbolic=sym) + [
        units.cosmology(sym),
        e("src/extent.rs"),
        e("src/domain/extent.rs"),
        e("src/voronoi/math/traits.rs"),
        parts.precision(sym),
        m,
        dict(e(DI, dim, drop=["use crate::voronoi::visualizer"]), transform=[slim] + e(DI)["transform"]),
        e(DD, SIMPLE, drop=["use crate::voronoi::visualizer", "trait DDimension"]),
        e("src/voronoi/delaunay/face_info.rs"),
        e(UT, utils),
        e(TR, triangle),
        e(TE, tetra),
        e(PO, polygon),
    ]
