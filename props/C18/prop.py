from gridmirror import DEPS, G, LIB, SYMLIB, files

LEVEL = "proof"


def run(ctx):
    ctx.assumptions += [
        "the sides of the box are whole multiples of the cell size, up to rounding (the only case in which cells of that size can tile it), and the box begins at the origin (as the parameter file makes it)",
        "over the reals: f64 taken as a real number; the executable contract works on floats",
        "3d build only (the 2d build of /repo does not compile: src/units names quantities it does not define)",
        "bevy's Commands::spawn keeps the components it is given (stand-in)",
    ]
    rd = lambda f: open(ctx.dir + "/" + f).read()
    ctx.symbolic(
        "c18s",
        [G + "::" + f for f in ("NumCellsSpec::num_cells", "NumCellsSpec::cell_size", "NumCellsSpec::face_area", "NumCellsSpec::volume", "IntegerPosition::contained", "IntegerPosition::wrapped", "IntegerPosition::from_position_and_side_length", "IntegerPosition::to_pos", "IntegerPosition::iter_neighbours", "GridConstructor::construct_neighbours", "GridConstructor::get_neighbour", "GridConstructor::to_pos", "GridConstructor::get_rank", "GridConstructor::wrap", "GridConstructor::num_cells")],
        files=files(True, rd("sym.rs")),
        lib_rs=SYMLIB,
        main_rs="fn main() { c18s::sweep::grid::vx::run() }\n",
        deps=DEPS + ["glam@sym", "symx"],
    )
    ctx.concrete(
        "c18",
        "bounded: grids of 1 to 7 cells per dimension, all combinations up to 3 and seeded beyond, sides and cell sizes that are exact multiples and ones that are only so up to rounding, 1 to 5 ranks, periodic and not",
        files=files(False, rd("contract.rs")),
        lib_rs=LIB,
        main_rs="fn main() { c18::sweep::grid::vx::run() }\n",
        deps=DEPS + ["glam", "vxcore"],
    )
