import importlib.util, os
spec = importlib.util.spec_from_file_location("c05prop", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "C05", "prop.py"))
c05 = importlib.util.module_from_spec(spec)
spec.loader.exec_module(c05)
LEVEL = "proof"
U = c05.U


def run(ctx):
    ctx.assumptions += ["over the reals: f64 taken as a real number; rounding is covered by the executable contract only"]
    ctx.symbolic(
        "c06s",
        [U + "::" + f for f in ("solve_system_of_equations", "swap_rows", "backward_substitution", "solve_3x4_system_of_equations_error", "add_row_to_another")],
        files=c05.sym_files(open(ctx.dir + "/sym.rs").read()),
        lib_rs=c05.LIB,
        main_rs="fn main() { c06s::voronoi::math::utils::vx::run() }\n",
        deps=["num", "array-init", "symx"],
        timeout=800,
    )
    ctx.concrete(
        "c06",
        "bounded: seeded systems of 2 to 4 equations (every zero pattern of small integers, mixed magnitudes, nearly singular), exact arithmetic as oracle, residuals within 1e-13 for floats",
        files=[{"src": c05.P, "keep": c05.KEEP}, {"src": U, "append": open(ctx.dir + "/contract.rs").read()}],
        lib_rs=c05.LIB,
        main_rs="fn main() { c06::voronoi::math::utils::vx::run() }\n",
        deps=["num", "array-init", "vxcore"],
    )
