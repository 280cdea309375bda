import os

import iomirror
import parts

LEVEL = "proof"
DEPS = ["mpi", "bevy_ecs", "derive_more", "lazy_static", "vxcore", parts.VXDERIVE, "hdf5", "ndarray", "log", "derive_custom", "glam"]


O = "src/io/output/mod.rs"
U = "src/io/unit_reader.rs"


def run(ctx):
    ctx.assumptions += [
        "HDF5: a dataset holds what was last written to each entry, an attribute its last value (assumed contracts; a stand-in in the executable contract)",
        "the names of the seven attributes differ (compared in the executable contract)",
        "the regions of one rank do not overlap and add up to its entries (C01); the reader visits every entry of its regions once, in order (C16)",
        "the conversion factor of a dimension is a function of the dimension; one factor divided by an equal one is 1",
    ]
    ctx.verus("verus.rs", [O + "::" + f for f in ("write_dimension", "add_dimension_attrs", "write_dataset_to_files", "create_dataset_in_files")] + [U + "::DefaultUnitReader::" + f for f in ("read_scale_factor", "read_dimension")] + ["src/io/file_distribution.rs::Region::size"])
    ctx.concrete(
        "c32",
        "bounded: one to three snapshots of six fields on 1 to 5 ranks with 0 to 8 particles each in 1 to 11 files, read back by 1 to 3 ranks, whole and in chunks (stand-ins for HDF5 and MPI); all exponents of a dimension",
        files=iomirror.files("", output=iomirror.writer(open(os.path.join(os.path.dirname(iomirror.__file__), "snapshots.rs")).read())),
        lib_rs=iomirror.LIBW,
        main_rs="fn main() { c32::io::output::vx::run() }\n",
        deps=DEPS,
    )
