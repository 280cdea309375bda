import keymirror

LEVEL = "proof"
F = "src/peano_hilbert.rs"


def run(ctx):
    ctx.assumptions += [
        "2D: coordinates below 2^32, 3D: below 2^42 (the grid); 2u64.pow(n) is read as 1 << n",
        "scaling of floating-point positions to the grid: bounded executable contract only",
        "in the extracted 2D function `(e > 0) as u64` is read as `if e > 0 { 1 } else { 0 }`; tuple patterns in parameters become a let",
    ]
    ctx.verus("verus3d.rs", [F + "::PeanoKey3d::from_integer_pos", F + "::ROTATION_TABLE", F + "::SUBPIX_TABLE"])
    ctx.verus("verus2d.rs", [F + "::PeanoKey2d::from_integer_pos", F + "::PeanoKey2d::rot"])
    ctx.concrete(
        "c02",
        "bounded: the coarsest levels completely, blocks of side 2..16 at seeded places on every coarsening of the grid, and seeded points in seeded extents",
        files=[{"src": F, "append": open(ctx.dir + "/contract.rs").read()}],
        lib_rs="pub mod peano_hilbert;\n",
        main_rs="fn main() { c02::peano_hilbert::vx::run() }\n",
        deps=["glam", "mpi", "vxcore"],
    )
    ctx.concrete(
        "c02k",
        "bounded: seeded positions, with and without unit, in seeded extents, 2D and 3D",
        files=keymirror.files(open(ctx.dir + "/keys.rs").read()),
        lib_rs=keymirror.LIB,
        main_rs="fn main() { c02k::domain::key::vx::run() }\n",
        deps=keymirror.DEPS + ["vxcore"],
    )
