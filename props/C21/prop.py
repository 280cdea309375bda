import os

import iomirror
import parts

LEVEL = "proof"
T = "src/io/output/timer.rs"
DEPS = ["mpi", "bevy_ecs", "derive_more", "lazy_static", "vxcore", parts.VXDERIVE, "hdf5", "ndarray", "log", "derive_custom", "glam"]


def run(ctx):
    ctx.assumptions += [
        "times are treated as real numbers (sums of intervals of floating-point seconds round)",
        "bevy runs the output systems exactly when their criteria say so and the timer's update last, once per step (the order in which the plugin registers them)",
        "fewer than 2^64 outputs",
    ]
    ctx.verus("verus.rs", [T + "::Timer::" + f for f in ("initialize_system", "run_criterion", "dataset_write_run_criterion", "update_system", "snapshot_num", "is_first_snapshot")])
    ctx.concrete(
        "c21",
        "bounded: seeded histories of up to 130 steps with whole seconds, all fields of the timer compared after every step; names of snapshots",
        files=iomirror.files("", output=iomirror.writer(open(os.path.join(os.path.dirname(iomirror.__file__), "snapshots.rs")).read())),
        lib_rs=iomirror.LIBW,
        main_rs="fn main() { c21::io::output::vx::timers() }\n",
        deps=DEPS,
    )
