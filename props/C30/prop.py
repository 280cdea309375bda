from voromirror import CO, DEPS, DL, I3, LIB, SYMDEPS, SYMLIB, files, symbolic_files

LEVEL = "proof"


def run(ctx):
    rd = lambda f: open(ctx.dir + "/" + f).read()
    ctx.assumptions += [
        "points in general position: no five on a sphere, none on the line or plane of others where a flip looks at it (the code stops with an error in these cases; images of particles in a periodic box line up now and then, and these boxes are set aside)",
        "that flips around a new point end, and end in a Delaunay triangulation, is the theorem of Edelsbrunner and Shah, not proved here; the executable contract checks the outcome exactly after every insertion",
        "split and flips: for any coordinates, every order of the vertices of a tetrahedron that keeps its orientation (for three tetrahedra: every order of two of them, the third one along), both senses of the shared faces, subsets of the neighbours; f64 taken as a real number",
        "the predicates are C20's, the store C22's, the search for haloes C19's, images C05's and C06's, keys C02's",
        "point location, the loop of flip checks, cells and the halo iteration: executable contract only (bounded)",
        "3d build only (the 2d build of /repo does not compile)",
        "MPI, the queries and commands of bevy and its hash maps: stand-ins",
    ]
    ctx.symbolic(
        "c30s",
        [I3 + "::Triangulation::" + f for f in ("split", "insert_split_tetra", "two_to_three_flip", "three_to_two_flip")] + ["src/voronoi/primitives/triangle.rs::Triangle::" + f for f in ("get_point_opposite", "get_points_of")] + [DL + "mod.rs::Triangulation::" + f for f in ("insert_tetra", "set_opposing_in_new_tetra", "update_connections_in_existing_tetra")],
        files=symbolic_files(rd("sym.rs")),
        lib_rs=SYMLIB,
        main_rs="fn main() { c30s::voronoi::delaunay::vx::run(); symx::report() }\n",
        deps=SYMDEPS,
    )
    ctx.concrete(
        "c30",
        "bounded: seeded sets of points (uniform, clustered, nearly on a lattice, nearly on a sphere; in cubes and in boxes that are not; five sizes): up to 25 points with the triangulation checked exactly after every insertion, up to 70 points with all cells compared with cells clipped out of half-spaces, up to 14 points that are not in general position (on lattices, lines, planes, twice), which are refused or triangulated rightly, boxes of 64 to 512 particles on 1 to 4 ranks with the grid of every rank compared with the cells of the periodic set of points",
        files=files(rd("contract.rs")),
        lib_rs=LIB,
        main_rs="fn main() { c30::voronoi::vx::run() }\n",
        deps=DEPS + ["vxcore"],
    )
    ctx.concrete(
        "c30h",
        "bounded: seeded histories of searches on 1 to 6 ranks with up to 90 particles (spread or in clusters), spheres up to 0.45 sides in radius and up to 0.45 sides outside of the box",
        files=files("pub fn vx_search() { constructor::parallel::vx::run() }\n", rd("search.rs")),
        lib_rs=LIB,
        main_rs="fn main() { c30h::voronoi::vx_search() }\n",
        deps=DEPS + ["vxcore"],
    )
