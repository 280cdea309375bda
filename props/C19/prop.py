from treemirror import DE, DEPS, LIB, RS, SYMLIB, Q, files, symbolic_files

LEVEL = "proof"


def run(ctx):
    ctx.assumptions += [
        "the centre of a search is within half a box of the box (particles are in the box), the radius is positive",
        "over the reals: f64 taken as a real number; the executable contract works on floats",
        "whole trees over symbolic particles are unrolled: up to 3 particles, depth up to 2, one dimension at a time; the single steps (quadrants, the quadrant of a point, which nodes are visited, which ranks are asked) hold for any node, particle, box and radius",
        "3d build only (the 2d build of /repo does not compile: src/units names quantities it does not define)",
        "MPI's all_gather delivers what the ranks sent, in the order of ranks (simulated)",
    ]
    rd = lambda f: open(ctx.dir + "/" + f).read()
    ctx.symbolic(
        "c19s",
        [Q + "::" + f for f in ("QuadTree::new", "QuadTree::insert", "QuadTree::subdivide", "QuadTree::depth_first_map_leaf")]
        + [RS + "::" + f for f in ("bounding_boxes_overlap_periodic", "relative_bounding_box_overlap", "within_radius_periodic", "PeriodicRadiusSearch::should_visit_node", "PeriodicRadiusSearch::should_include_leaf", "QuadTree::iter_particles_in_radius", "TreeIter::next")]
        + ["src/quadtree/node_index.rs::Extent::get_quadrants", "src/quadtree/node_index.rs::Extent::get_quadrant_index", "src/domain/extent.rs::Extent::from_positions", "src/domain/extent.rs::Extent::get_all_encompassing", "src/domain/extent.rs::cube_around_sphere", DE + "::Decomposition::rank_owns_part_of_search_radius"],
        files=symbolic_files(rd("sym.rs")),
        lib_rs=SYMLIB,
        main_rs="fn main() { c19s::quadtree::vx::run() }\n",
        deps=DEPS + ["glam@sym", "symx"],
    )
    ctx.concrete(
        "c19",
        "bounded: seeded sets of up to 150 particles (uniform, clustered, coincident, on borders and dividing planes), depths 0 to 20, 0 to 6 particles per leaf, boxes that are cubes and that are not, radii from tiny to the size of the box, up to 6 ranks with any number of particles (none included)",
        files=files(rd("contract.rs")),
        lib_rs=LIB,
        main_rs="fn main() { c19::quadtree::vx::run() }\n",
        deps=DEPS + ["glam", "vxcore"],
    )
