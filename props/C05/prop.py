import symbolic

LEVEL = "proof"
U = "src/voronoi/math/utils.rs"
P = "src/voronoi/math/precision_types.rs"
LIB = """#![feature(generic_const_exprs)]
pub mod voronoi {
    pub mod math { pub mod precision_types; pub mod traits { pub trait Num: num::Num + Clone + num::Signed + PartialOrd + super::precision_types::FloatError + std::fmt::Debug + num::traits::NumOps {}
        impl<T> Num for T where T: num::Num + Clone + num::Signed + PartialOrd + super::precision_types::FloatError + std::fmt::Debug {} } pub mod utils; }
}
"""
KEEP = ["use num", "struct PrecisionError", "impl PrecisionError", "trait FloatError", "impl FloatError for f64", "type PrecisionFloat", "impl FloatError for PrecisionFloat"] + [
    "const DETERMINANT_%dX%d_EPSILON" % (d, d) for d in (3, 4, 5)
]


def sym_files(append):
    return [
        {"src": P, "keep": KEEP, "edits": [("num::BigRational", "symx::X")], "transform": [symbolic.reals]},
        {"src": U, "transform": [symbolic.reals], "append": append},
    ]


def run(ctx):
    ctx.assumptions += [
        "over the reals: f64 taken as a real number for the identities; the rounding of the float evaluation is bounded by counting the roundings each product passes (standard model of floating point, no overflow or underflow for entries in 1e-50..1e50)",
        "num::BigRational computes exactly (assumed contract of the dependency; exercised by the executable contract)",
        "the filter loop is under contract for 1x1 and 2x2 matrices with arbitrary entries and arbitrary float and exact results (it is the same loop for every size)",
    ]
    ctx.symbolic(
        "c05s",
        [U + "::" + f for f in ("determinant3x3", "determinant4x4", "determinant5x5", "lift_matrix", "compare_result_against_entries", "determine_sign_with_arbitrary_precision_if_necessary", "Sign::mul", "Sign::of", "Sign::try_from_val", "Sign::is_positive", "Sign::is_negative")]
        + [P + "::PrecisionError::check", P + "::FloatError for f64"],
        files=sym_files(open(ctx.dir + "/sym.rs").read()),
        lib_rs=LIB,
        main_rs="fn main() { c05s::voronoi::math::utils::vx::run() }\n",
        deps=["num", "array-init", "symx"],
    )
    ctx.concrete(
        "c05",
        "bounded: seeded matrices (small integers, zero patterns, normalised circumsphere matrices, exactly and nearly dependent rows, scales 1e-20..1e20) against exact integer arithmetic",
        files=[{"src": P, "keep": KEEP}, {"src": U, "append": open(ctx.dir + "/contract.rs").read()}],
        lib_rs=LIB,
        main_rs="fn main() { c05::voronoi::math::utils::vx::run() }\n",
        deps=["num", "array-init", "vxcore"],
    )
