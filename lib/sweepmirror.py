"""The sweep of /repo (src/sweep, src/chemistry) as a mirror crate: everything but the bevy systems, the
output and the plugin; MPI ranks are threads over the stand-in for MPI."""
import parts
import units

M = "src/sweep/mod.rs"
DROP = [
    "mod chemistry_output", "mod time_series", "use self::chemistry_output", "use self::time_series", "use bevy_ecs", "use hdf5",
    "use self::direction::init_directions_rng", "use self::direction::rotate_directions_system", "use mpi::traits::MatchesRaw",
    "use crate::components", "use crate::io", "use crate::particle::HaloParticles", "use crate::simulation", "use crate::simulation_plugin", "use crate::chemistry::hydrogen_only::HydrogenOnlySpecies",
    "struct SweepPlugin", "struct IsFirstTime", "impl SubsweepPlugin for SweepPlugin", "fn init_sweep_system", "fn run_sweep_system", "fn initialize_optional_component_system",
    "fn init_optional_component", "fn init_optional_chemistry_component", "fn initialize_sweep_test_components_system", "fn show_num_directions_system",
]
DIRECTION_DROP = ["use bevy_ecs::prelude::NonSendMut", "use bevy_ecs::prelude::ResMut", "use super::Sweep", "use crate::prelude::Simulation", "fn rotate_directions_system", "fn init_directions_rng"]
LIB = units.FEATURES + """
pub mod communication {
    pub mod data_by_rank; pub mod sized_communicator; pub mod identified; pub mod mpi_world; pub mod exchange_communicator;
    pub use data_by_rank::DataByRank; pub use sized_communicator::SizedCommunicator; pub use identified::Identified;
    pub use mpi_world::MpiWorld; pub use exchange_communicator::ExchangeCommunicator;
    pub mod communicator { pub type Communicator<T> = super::mpi_world::MpiWorld<T>; }
    pub type Rank = mpi::Rank;
}
pub mod units; pub mod cosmology; pub mod parameters { pub use crate::cosmology::Cosmology; }
pub mod prelude { pub use crate::units; pub use crate::units::helpers::Float; pub use crate::units::helpers::MVec; pub use crate::particle::ParticleId; }
pub mod chemistry; pub mod sweep; pub mod particle;
pub mod hash_map { pub type HashMap<K, V> = std::collections::HashMap<K, V>; pub type HashSet<K> = std::collections::HashSet<K>; }
pub mod dimension { pub use crate::simulation_box::PeriodicWrapType3d as ActiveWrapType; }
pub mod simulation_box;
pub mod performance {
    /// stand-in: takes no times
    pub struct Performance;
    impl Performance {
        pub fn start<N: Into<String>>(&mut self, _: N) {}
        pub fn stop<N: Into<String>>(&mut self, _: N) {}
        pub fn time<N: Into<String> + Clone>(&mut self, _: N) -> TimerGuard { TimerGuard }
        pub fn record_number<N: Into<String>>(&mut self, _: N, _: usize) {}
    }
    pub struct TimerGuard;
}
"""
DEPS = ["mpi", "bevy_ecs", "derive_custom", "derive_more", "diman", "lazy_static", "log", "glam", "rand", "ordered-float", "vxcore", parts.VXDERIVE]
BOX_KEEP = ["enum WrapType", "impl std::fmt::Debug for WrapType", "struct PeriodicWrapType3d", "impl std::fmt::Debug for PeriodicWrapType3d"]


def files(append=""):
    head = "use bevy_ecs::prelude::Resource;\n"
    return units.files() + [
        units.cosmology(),
        {"src": M, "drop": DROP, "append": head + append},
        {"src": "src/sweep/direction/mod.rs", "drop": DIRECTION_DROP, "transform": [parts.noserde]},
        {"src": "src/sweep/direction/healpix.rs"},
        {"src": "src/sweep/grid/mod.rs", "drop": ["mod cartesian", "use cartesian"]},
        {"src": "src/sweep/grid/cell.rs"},
        {"src": "src/chemistry/mod.rs"},
        {"src": "src/chemistry/timescale.rs"},
        {"src": "src/chemistry/hydrogen_only/mod.rs"},
        {"src": "src/particle.rs", "keep": ["use mpi", "use crate::communication", "struct ParticleId", "impl ParticleId"], "append": "use bevy_ecs::prelude::Component; use derive_custom::Named;\n"},
        {"src": "src/simulation_box.rs", "keep": BOX_KEEP},
    ] + [{"src": "src/communication/%s.rs" % f} for f in ("data_by_rank", "sized_communicator", "identified", "mpi_world", "exchange_communicator")] + [
        {"src": "src/sweep/%s.rs" % f} for f in ("active_list", "communicator", "count_by_dir", "deadlock_detection", "parameters", "site", "task", "timestep_level", "timestep_state")]
import os
WORLD = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "sweep_world.rs")).read()
