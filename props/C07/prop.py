import symbolic
import units

LEVEL = "proof"
F = "src/sweep/direction/mod.rs"
DROP = ["use bevy_ecs::prelude::NonSendMut", "use bevy_ecs::prelude::ResMut", "use super::parameters", "use super::Sweep", "use crate::prelude::Simulation", "use serde", "fn rotate_directions_system", "fn init_directions_rng", "impl From<&DirectionsSpecification> for Directions"]
HEAD = "use vxderive::{Serialize, Deserialize};\n"
LIB = units.FEATURES + """
pub mod units; pub mod cosmology;
pub mod parameters { pub use crate::cosmology::Cosmology; }
pub mod prelude { pub use crate::units; pub use crate::units::helpers::Float; pub use crate::units::helpers::MVec; }
pub mod chemistry { pub trait Chemistry { type Photons; } pub mod hydrogen_only { pub struct HydrogenOnly; impl super::Chemistry for HydrogenOnly { type Photons = crate::units::PhotonRate; } } }
pub mod sweep { pub mod direction; }
"""
DEPS = ["bevy_ecs", "mpi", "derive_custom", "derive_more", ("vxderive", '{ path = "%s/shims/vxderive" }' % symbolic.__file__.rsplit("/lib/", 1)[0])]


def run(ctx):
    ctx.assumptions += [
        "over the reals: f64 taken as a real number; sin and cos of an angle are two numbers with sin^2+cos^2=1, acos(x) the angle with cosine x and non-negative sine",
        "the random generator returns some number of the range asked for (assumed contract of rand)",
        "redistribution is under contract for up to three directions in any positions (the loops do not depend on the number); larger sets by the executable contract",
        "dropped from the mirrored file: bevy systems (rotate_directions_system, init_directions_rng) and reading of parameters",
    ]
    ctx.symbolic(
        "c07s",
        [F + "::" + f for f in ("get_rotation_matrix", "get_random_rotation_matrix", "multiply_by_matrix", "kernel_f", "remap")],
        files=units.files(symbolic=True) + [units.cosmology(True), {"src": F, "drop": DROP, "transform": [symbolic.reals, lambda t: t.replace("use symx::ToReal as _;\n", "", 1) + "\n" + HEAD + "use symx::ToReal as _;\n"], "append": open(ctx.dir + "/sym.rs").read()}, {"src": "src/sweep/direction/healpix.rs", "transform": [symbolic.reals]}],
        lib_rs=LIB,
        main_rs="fn main() { c07s::sweep::direction::vx::run() }\n",
        deps=DEPS + ["glam@sym", "rand@sym", "ordered-float@sym", "symx"],
    )
    ctx.concrete(
        "c07",
        "bounded: seeded axes, angles, vectors and generator seeds; all predefined direction sets; redistribution for up to 84 directions",
        files=units.files() + [units.cosmology(), {"src": F, "drop": DROP, "append": HEAD + open(ctx.dir + "/contract.rs").read()}, {"src": "src/sweep/direction/healpix.rs"}],
        lib_rs=LIB,
        main_rs="fn main() { c07::sweep::direction::vx::run() }\n",
        deps=DEPS + ["glam", "rand", "ordered-float", "vxcore"],
    )
