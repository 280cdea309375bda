"""The reading and writing of data files of /repo (src/io) as a mirror crate over a stand-in for HDF5."""
import re

import parts
import units

I = "src/io/input/mod.rs"
COMM = """
pub mod communication {
    pub mod data_by_rank; pub mod sized_communicator; pub mod identified; pub mod mpi_world; %s
    pub use data_by_rank::DataByRank; pub use sized_communicator::SizedCommunicator; pub use identified::Identified;
    pub use mpi_world::MpiWorld;
    pub mod communicator { pub type Communicator<T> = super::mpi_world::MpiWorld<T>; }
    pub type Rank = mpi::Rank;
}
"""
FILES = ["src/communication/" + f + ".rs" for f in ("data_by_rank", "sized_communicator", "identified", "mpi_world")]

LIB = units.FEATURES + COMM % "" + """
pub mod units; pub mod cosmology; pub mod parameters { pub use crate::cosmology::Cosmology; }
pub mod io;
pub mod named { pub trait Named { fn name() -> &'static str; } }
pub mod prelude { pub use crate::units::helpers::Float; pub use crate::named::Named; pub use crate::units; }
"""
IDENTS = ["SCALE_FACTOR", "LENGTH", "TIME", "MASS", "TEMPERATURE", "H_SCALING", "A_SCALING"]


def files(contract, output=None):
    return units.files() + [
        units.cosmology(),
    ] + [{"src": f} for f in FILES] + [
        {"src": "src/io/file_distribution.rs"},
        {"src": "src/io/mod.rs", "drop": ["mod output", "mod time_series"], "append": "pub mod output;", "edits": [("mod file_distribution;", "pub mod file_distribution;")], "transform": [lambda t: t.replace("pub pub", "pub")]},
        {"src": "src/io/unit_reader.rs"},
        {"src": "src/io/to_dataset.rs", "keep": ["use hdf5", "use crate::units", "trait ToDataset"]},
        {
            "src": I,
            "drop": ([] if output else ["mod attribute", "struct NumParticlesTotal"]) + ["use bevy_ecs", "use derive_custom", "use crate::hash_map", "use crate::performance", "use crate::prelude::LocalParticle", "use crate::simulation", "struct InputParameters", "impl InputParameters", "struct SpawnedEntities", "struct DatasetInputPlugin", "impl<T> DatasetInputPlugin<T>", "struct ReadDatasetLabel", "struct RegisteredDatasets", "struct RegisteredDataset", "fn spawn_entities_system", "fn read_dataset_system", "impl<T: Named + ToDataset + Component + Sync + Send + 'static> SubsweepPlugin for DatasetInputPlugin<T>"],
            "append": contract + "\nuse bevy_ecs::prelude::Resource;\n",
        },
    ] + (output if output is not None else [{"src": "src/io/output/mod.rs", "keep": ["const %s_IDENTIFIER" % i for i in IDENTS]}])


OUT_DROP = ["mod plugin", "use self::plugin", "use crate::parameter_plugin", "fn write_used_parameters_system"]
ATTR_DROP = ["use bevy_ecs::prelude::IntoSystemDescriptor", "use bevy_ecs::schedule", "use bevy_ecs::system", "use super::plugin", "use super::timer", "impl<T: ToAttribute> IntoOutputSystem for Attribute<T>"]
LIBW = units.FEATURES + COMM.replace("pub use mpi_world::MpiWorld;", "pub use mpi_world::MpiWorld; pub use mpi_world::MPI_UNIVERSE; pub mod world; pub use world::*;") % "" + """
pub mod units; pub mod cosmology; pub mod parameters { pub use crate::cosmology::Cosmology; }
pub mod components; pub mod io; pub mod simulation_plugin;
pub mod named { pub trait Named { fn name() -> &'static str; } pub use vxderive::NamedImpl as Named; }
pub mod performance { pub struct Performance; impl Performance { pub fn start(&mut self, _: &str) {} pub fn stop(&mut self, _: &str) {} } }
pub mod prelude {
    pub use crate::units::helpers::Float; pub use crate::units::helpers::MVec; pub use crate::named::Named; pub use crate::units; pub use crate::communication::{WorldRank, WorldSize};
    /// stand-in for a query over the local particles
    pub struct Particles<T>(pub Vec<T>);
    impl<T: Clone> Particles<T> { pub fn iter(&self) -> impl Iterator<Item = T> + '_ { self.0.iter().cloned() } }
}
"""


SP_DROP = ["use bevy_app", "use log", "use mpi", "use crate::components", "use crate::cosmology::set_initial", "use crate::cosmology::LittleH", "use crate::io", "use crate::named", "use crate::parameters::SimulationBox", "use crate::particle", "use crate::performance", "use crate::prelude", "use crate::simulation", "struct SimulationPlugin", "enum Stages", "enum StartupStages", "struct ShouldExit", "impl SubsweepPlugin for SimulationPlugin", "fn check_particles_in_simulation_box_system", "fn show_time_system", "fn write_simulated_time_system", "fn show_num_cores_system", "fn remove_components_system"]


def simulation_plugin(cosmic):
    """the systems that end a run and keep its clock; not the registration of systems, nor what only logs"""
    drop = SP_DROP + ([] if cosmic else ["use crate::time_spec", "use crate::parameters::Cosmology", "use crate::cosmology", "fn set_cosmological_time_variables_system"])
    vis = lambda t: re.sub(r"(?m)^fn (stop_simulation_system|exit_system|set_cosmological_time_variables_system)", r"pub fn \1", t)
    return {"src": "src/simulation_plugin/mod.rs", "drop": drop, "transform": [vis], "append": "#[derive(Default)] pub struct AppExit;\n"}


def writer(contract, cosmic=False):
    """the writing side: all of output/ but the plugin that registers the systems, the fields, the end of the run"""
    return [
        {"src": "src/io/output/mod.rs", "drop": OUT_DROP, "append": contract},
        {"src": "src/io/output/attribute.rs", "drop": ATTR_DROP, "append": "pub fn vx_write<T: ToAttribute>(t: &T, f: &mut OutputFiles) { write_attribute(Res(t), ResMut(f)) }\n"},
        {"src": "src/io/input/attribute.rs"},
        {"src": "src/io/output/timer.rs"},
        {"src": "src/io/output/parameters.rs", "drop": ["use super::plugin", "use crate::simulation", "fn is_desired_field"]},
        {"src": "src/components.rs", "drop": ["use mpi"], "transform": [lambda t: t.replace("Equivalence, ", "")]},
        {"src": "src/communication/mod.rs", "dst": "communication/world.rs", "keep": ["use bevy_ecs", "use derive_more", "struct WorldSize", "struct WorldRank", "impl WorldRank"], "append": "use super::Rank;\n"},
        simulation_plugin(cosmic),
        {"src": "src/simulation_plugin/time.rs"},
        {"src": "src/simulation_plugin/parameters.rs"},
    ]
