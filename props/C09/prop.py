import sweepmirror

LEVEL = "proof"
S = "src/sweep/timestep_"


def run(ctx):
    ctx.assumptions += [
        "verus: 1 to 31 timestep levels (the code asserts fewer than 32); 2usize.pow(e) is 2^e (trusted)",
        "verus: (0..n).map(f) yields what the verified helper it is replaced with yields; operators on TimestepLevel are the extracted functions that implement them",
        "the logarithm and rounding in from_max_timestep_and_desired_timestep, and the multiplication of times, are floating point: decided by the bounded executable contract only",
    ]
    ctx.verus("verus.rs", [S + "state.rs::TimestepState::" + f for f in ("new", "advance_allowed_levels", "num_allowed_levels", "lowest_active_from_iteration", "iter_levels_in_sweep_order")]
        + [S + "state.rs::find_index_of_lowest_set_bit_in_int"]
        + [S + "level.rs::TimestepLevel::" + f for f in ("add", "sub_assign", "is_active", "is_highest_timestep")])
    ctx.concrete(
        "c09",
        "exhaustive for 1 to 12 levels (schedules, all steps until all levels are permitted and beyond); bounded: seeded desired timesteps; whole sweeps on seeded grids of up to 4 ranks, 24 cells and 4 levels over several global steps",
        files=sweepmirror.files(sweepmirror.WORLD + open(ctx.dir + "/contract.rs").read()),
        lib_rs=sweepmirror.LIB,
        main_rs="fn main() { c09::sweep::vx::run() }\n",
        deps=sweepmirror.DEPS,
    )
