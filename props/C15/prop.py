import boxmirror
from unitmirror import A, C, DEPS, LIB, NEW, SI, concrete_files, cosmology

LEVEL = "proof"


def run(ctx):
    ctx.assumptions += [
        "floating point treated as real numbers in the proofs; scale factor and h positive; exponents of dimensions within +-1000",
        "HDF5 attributes are read as they are held by the file (assumed contract; a stand-in in the executable contract)",
        "flat cosmologies with omega_lambda > 0 (with omega_lambda = 0 the code divides by zero)",
        "the binary search is proved to return a scale factor whose time is within 100 years if it returns; that it does within 100 halvings needs a Lipschitz bound of the time, which is assumed; termination of the search for an upper bound is not proved",
        "derivatives of sqrt, ln and powf are those of the textbook",
        "the macro of the crate diman is expanded by lib/units.py; factors of base units are positive",
    ]
    rd = lambda f: open(ctx.dir + "/" + f).read()
    ctx.verus("verus.rs", [C + "::" + f for f in ("scalefactor_to_redshift", "Cosmology::redshift", "Cosmology::scale_factor", "Cosmology::little_h", "Cosmology::get_factor", "CosmologyParams::get_scalefactor_from_scalefactor_and_time_difference", "binary_search", "depth_limited_binary_search")]
        + ["src/units/dimension.rs::Dimension::" + f for f in ("non_cosmological", "base_conversion_factor")] + [SI + "::Quantity::make_non_cosmological"]
        + [A + "::" + f for f in ("is_cosmological", "ArepoUnitReader::check_cosmology_available", "ArepoUnitReader::get_cosmological_factor", "ArepoUnitReader::read_raw_dimension", "ArepoUnitReader::read_scale_factor", "ArepoUnitReader::read_dimension")])
    ctx.symbolic(
        "c15s",
        [C + "::" + f for f in ("Cosmology::redshift", "Cosmology::scale_factor", "Cosmology::little_h", "Cosmology::get_factor", "Cosmology::time_difference_between_scalefactors", "CosmologyParams::time_difference_between_scalefactors")]
        + [SI + "::" + f for f in ("Quantity::make_non_cosmological", "Temperature::to_internal_energy", "Temperature::from_internal_energy_density_hydrogen_only", "EnergyPerMass::to_temperature", "EnergyDensity::from_temperature_hydrogen_only")]
        + ["src/simulation_box.rs::get_simulation_box"],
        files=cosmology(boxmirror.files(True, rd("sym.rs"), boxmirror.USES), NEW.replace("vxfloat", "symx::R")),
        lib_rs=boxmirror.LIB,
        main_rs="fn main() { c15s::simulation_box::vx::run() }\n",
        deps=boxmirror.DEPS + ["glam@sym", "symx"],
    )
    ctx.concrete(
        "c15",
        "bounded: all units and constants; seeded values, dimensions (exponents up to 12), scale factors 0.003 to 3, flat cosmologies with omega_0 0.05 to 0.95, datasets with exponents up to 3",
        files=concrete_files(rd("contract.rs")),
        lib_rs=LIB,
        main_rs="fn main() { c15::cosmology::vx::run() }\n",
        deps=DEPS + ["vxcore"],
    )
