from boxmirror import DEPS, LIB, S, USES, files

LEVEL = "proof"
def run(ctx):
    ctx.assumptions += [
        "over the reals: f64 taken as a real number; on floats the wrapped coordinate may be rounded onto the upper border, and image positions and distances carry rounding errors (the executable contract allows a few units in the last place)",
        "glam's arithmetic works per component (assumed contract; the executable contract uses the real glam)",
        "periodic distances: differences of at most 3/2 box lengths per coordinate (the range the code documents)",
        "a halo search radius is at most half a box length, so no two images are within it (the code refuses, by its assertion, where two are)",
    ]
    for dim in ("3d",):  # the 2d build of /repo does not compile (src/units names quantities it does not define)
        ctx.symbolic(
            "c11s" + dim,
            [S + "::" + f + " (" + dim + ")" for f in ("SimulationBox::new", "cube_from_side_length", "cube_from_side_length_centered", "get_simulation_box", "periodic_wrap_component", "periodic_wrap", "minimize_component", "periodic_distance_vec", "periodic_distance", "iter_periodic_images", "WrapType::iter_all", "WrapType::as_sign", "as_translation", "is_periodic", "no_wrap")],
            files=files(True, open(ctx.dir + "/sym.rs").read(), USES),
            lib_rs=LIB,
            main_rs="fn main() { c11s%s::simulation_box::vx::run() }\n" % dim,
            deps=DEPS + ["glam@sym", "symx"],
            default_features=(dim,),
        )
        ctx.concrete(
            "c11" + dim,
            "bounded (%s build): seeded boxes (cubes and others, around and away from the origin), points inside, on borders, far outside, pairs within 3/2 box lengths, all images, seeded halo searches" % dim,
            files=files(False, open(ctx.dir + "/contract.rs").read(), USES + open(ctx.dir + "/search.rs").read()),
            lib_rs=LIB,
            main_rs="fn main() { c11%s::simulation_box::vx::run() }\n" % dim,
            deps=DEPS + ["glam", "vxcore"],
            default_features=(dim,),
        )
