from chemmirror import C, DEPS, H, LIB, SYMDEPS, SYMLIB, T, files, symbolic_files

LEVEL = "proof"


def run(ctx):
    rd = lambda f: open(ctx.dir + "/" + f).read()
    ctx.assumptions += [
        "symx, verus: temperatures, densities, rates and times are real numbers; rounding is left to the executable contract",
        "symx: exp and real powers of positive numbers are positive and have the textbook derivatives; densities, volumes, lengths, temperatures and the scale factor are positive, the ionized fraction is in [0, 1), photon rates are not negative",
        "symx: temperature_change and ionized_fraction_change are checked against the contracts of the rates they call (any functions of the state), in the limit of short timesteps",
        "verus: temperature_change and ionized_fraction_change only read the solver and depend on its state and the timestep (what they compute is the symbolic part); the timestep safety factor is below one",
        "verus: the smallest ionized fraction is a number between 0 and 1/2; a positive number divided by zero is more than one (infinity); comparison of quantities compares their values; the error message of a solver that gave up is left out",
        "that the solver does not give up (100 halvings of the timestep) is not proved; where it does the state is still in range, and a tenth of the timestep is asked for",
    ]
    ctx.verus("verus.rs", [H + "::" + f for f in ("update", "Solver::clamp", "Solver::try_timestep_update", "Solver::perform_timestep_internal", "Solver::perform_timestep", "HydrogenOnly::update_abundances")]
        + [T + "::Timescale::" + f for f in ("ionization_fraction", "temperature", "photon_rate", "min")])
    ctx.symbolic(
        "c14s",
        [H + "::Solver::" + f for f in ("collision_fit_function", "collision_fit_function_derivative", "case_b_recombination_rate", "case_b_recombination_rate_derivative", "case_b_recombination_cooling_rate", "case_b_recombination_cooling_rate_derivative", "collisional_ionization_rate", "collisional_ionization_rate_derivative", "collisional_ionization_cooling_rate", "collisional_ionization_cooling_rate_derivative", "collisional_excitation_cooling_rate", "collisional_excitation_cooling_rate_derivative", "bremsstrahlung_cooling_rate", "bremsstrahlung_cooling_rate_derivative", "compton_cooling_rate", "compton_cooling_rate_derivative", "cooling_rate", "cooling_rate_derivative", "num_newly_ionized_hydrogen_atoms", "photoheating_rate", "photoionization_rate", "mu", "hydrogen_number_density", "ionized_hydrogen_number_density", "neutral_hydrogen_number_density", "electron_number_density")]
        + [C + "::PhotonRate::relative_change_to", C + "::PhotonRate::below_threshold", C + "::Photons::make_positive", T + "::Timescale::min"],
        files=symbolic_files(rd("sym.rs")),
        lib_rs=SYMLIB,
        main_rs="fn main() { c14s::chemistry::hydrogen_only::vx::run() }\n",
        deps=SYMDEPS + ["glam@sym", "symx"],
    )
    ctx.symbolic(
        "c14t",
        [H + "::Solver::" + f for f in ("temperature_change", "ionized_fraction_change")],
        files=symbolic_files(rd("change.rs"), abstract=("case_b_recombination_rate", "case_b_recombination_rate_derivative", "collisional_ionization_rate", "collisional_ionization_rate_derivative", "cooling_rate", "cooling_rate_derivative")),
        lib_rs=SYMLIB,
        main_rs="fn main() { c14t::chemistry::hydrogen_only::vx::run() }\n",
        deps=SYMDEPS + ["glam@sym", "symx"],
    )
    ctx.concrete(
        "c14",
        "bounded: seeded states over the whole range (10 to 1e7 K, ionized fractions 0 to 1, 1e-7 to 1e3 atoms per cm^3, no radiation up to what ionizes the cell in years), timesteps 0.1 to 3000 years and some e-foldings",
        files=files(rd("contract.rs")),
        lib_rs=LIB,
        main_rs="fn main() { c14::chemistry::hydrogen_only::vx::run() }\n",
        deps=DEPS,
    )
