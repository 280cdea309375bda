LEVEL = "proof"
F = "src/io/file_distribution.rs"


def run(ctx):
    ctx.assumptions += [
        "at least one file, at least one rank, and the total number of entries fits a usize",
        "std: slice.iter().sum(), (a..b).map(|_| e).collect() and into_iter().filter(p).collect() behave like the verified helpers vx_sum, vx_repeat and vx_filter that replace them in the extracted text",
    ]
    ctx.verus(
        "verus.rs",
        [F + "::" + f for f in ("Region::size", "get_regions_from", "get_rank_assignment", "get_input_rank_assignment", "get_rank_input_assignment_for_rank", "get_output_rank_assignment", "get_rank_output_assignment_for_rank")],
    )
    ctx.concrete(
        "c01",
        "bounded: all file/rank shapes with up to 4 entries of 0..4 and 1..6 ranks, plus seeded larger ones",
        files=[{"src": F, "append": open(ctx.dir + "/contract.rs").read()}],
        lib_rs="pub mod communication { pub type Rank = i32; }\npub mod io { pub mod file_distribution; }\n",
        main_rs="fn main() { c01::io::file_distribution::vx::run() }\n",
        deps=["bevy_ecs", "vxcore"],
    )
