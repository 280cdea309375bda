from geomirror import DD, DEPS, DI, LIB, MU, PO, TE, TR, UT, files

LEVEL = "proof"


def run(ctx):
    read = lambda f: open(ctx.dir + "/" + f).read()
    ctx.assumptions += [
        "over the reals: f64 taken as a real number, the exact type as itself; so both the float branch and the exact branch of every predicate are shown to decide the right thing, but not that the float filter sends every rounded case to the exact branch (the executable contract compares with exact rational arithmetic, down to one unit in the last place, where the code claims to be exact)",
        "points exactly on a boundary are excluded (the code refuses them with a panic)",
        "closest point of a triangle: triangles in the coordinate planes with one edge along an axis (all three turns), any point; other orientations by the executable contract",
        "2D circumcircle: at most one coordinate difference zero; the others by the executable contract",
        "glam's arithmetic works per component (assumed contract; the executable contract uses the real glam)",
        "areas of polygons, the ring arrangement and the distance to a tetrahedron: executable contract only (bounded)",
    ]
    ctx.symbolic(
        "c20s",
        [TE + "::TetrahedronData::" + f for f in ("contains", "f64_contains", "arbitrary_precision_contains", "circumcircle_contains", "circumcircle_contains_float", "get_center_of_circumcircle", "get_center_of_circumcircle_float", "all_encompassing")]
        + [TE + "::points_are_on_same_side_of_triangle"]
        + [TR + "::TriangleData::" + f for f in ("contains", "f64_contains", "arbitrary_precision_contains", "generic_contains", "transform_point_to_canonical_coordinates", "circumcircle_contains", "get_center_of_circumcircle", "generic_get_line_intersection_type", "get_intersection_type", "get_line_intersection_type", "closest_point", "all_encompassing")]
        + [DI + "::remap_point (2D, 3D)"]
        + [MU + "::" + f for f in ("solve_system_of_equations", "solve_3x4_system_of_equations_error", "backward_substitution", "determinant3x3_sign", "determinant5x5", "lift_matrix", "Sign::try_from_val")],
        files=files(True, triangle=read("triangle_sym.rs"), tetra=read("tetra_sym.rs")),
        lib_rs=LIB,
        main_rs="fn main() { c20s::voronoi::primitives::tetrahedron::vx::run(); c20s::voronoi::primitives::triangle::vx::run(); symx::report() }\n",
        deps=DEPS + ["glam@sym", "symx"],
    )
    ctx.concrete(
        "c20",
        "bounded: seeded simplices and points (uniform, on lattices, slivers, on a common sphere up to single units in the last place, on faces and edges up to the same; sizes 1e-10 to 1e10), all vertex orders, seeded extents, convex polygons, rings of up to 8 items; oracle: exact rational arithmetic",
        files=files(False),
        lib_rs=LIB + read("contract.rs"),
        main_rs="fn main() { c20::vx::run() }\n",
        deps=DEPS + ["glam", "vxcore"],
    )
