import iomirror
import parts
from iomirror import COMM, FILES

LEVEL = "proof"
X = "src/communication/exchange_communicator.rs"
I = iomirror.I
DEPS = ["mpi", "bevy_ecs", "derive_more", "lazy_static", "vxcore", parts.VXDERIVE]


def run(ctx):
    ctx.assumptions += [
        "reading: the end of the region plus the chunk size fits a usize; chunk sizes are at least 1",
        "std: slice::chunks yields consecutive pieces of the given size, the last one shorter (assumed contract); usize::rem_euclid is %, Ord::min the smaller; (a..b).map(f).collect() behaves like the verified helper vx_map_range",
        "the lazy iterator of divide_into_chunks_with_same_num_globally is run to its end (its closure body is the loop body of the verified text)",
        "all_gather_max returns the largest value of all ranks, the same everywhere (checked in C04)",
        "HDF5 selections read what they name (stand-in in the executable contract)",
    ]
    ctx.verus("verus.rs", [X + "::" + f for f in ("div_ceil", "global_num_chunks", "divide_into_chunks_with_same_num_globally")] + [I + "::get_chunk_sizes", "src/io/file_distribution.rs::Region::size"])
    ctx.concrete(
        "c16",
        "bounded: numbers of rounds for all lengths below 70 and limits below 40, extremes and seeded values; seeded rounds on 1 to 5 and 11 ranks",
        files=[{"src": f} for f in FILES] + [{"src": X, "append": open(ctx.dir + "/rounds.rs").read()}],
        lib_rs=COMM % "pub mod exchange_communicator;",
        main_rs="fn main() { c16::communication::exchange_communicator::vx::run() }\n",
        deps=DEPS,
    )
    ctx.concrete(
        "c16io",
        "bounded: chunks of all regions below 60 entries with limits below 64 and seeded larger ones; the real reader on 1 to 5 ranks over 1 to 4 files (stand-in for HDF5), seeded",
        files=iomirror.files(open(ctx.dir + "/reading.rs").read()),
        lib_rs=iomirror.LIB,
        main_rs="fn main() { c16io::io::input::vx::run() }\n",
        deps=DEPS + ["hdf5", "ndarray", "log", "derive_custom", "glam"],
    )
