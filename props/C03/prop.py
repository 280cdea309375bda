LEVEL = "proof"
D = "src/communication/data_by_rank.rs"
S = "src/communication/sized_communicator.rs"


def run(ctx):
    ctx.assumptions += [
        "rank numbers fit an i32 and looked-up ranks lie below the highest rank the container was made for or has been given",
        "std: (a..b).map(f).collect(), (a..b).filter(p).collect() and (a..b).collect() behave like the verified helpers that replace them in the extracted text",
        "iter, iter_mut, drain_all, size, clone and from_iter are single std adapter chains over the proved operations: bounded executable contract only",
    ]
    ctx.verus("verus.rs", [D + "::" + f for f in ("empty", "get", "remove", "insert", "extend", "from_closure_size_and_rank", "IntoIter::new", "IntoIter::next")])
    ctx.verus("verus_ranks.rs", [S + "::" + f for f in ("other_ranks", "all_ranks")])
    ctx.concrete(
        "c03",
        "bounded: seeded histories of up to 60 operations on up to 41 ranks against a sorted map; constructors for all sizes up to 40 and all ranks",
        files=[{"src": D, "append": open(ctx.dir + "/contract.rs").read()}, {"src": S}],
        lib_rs="pub mod communication { pub mod data_by_rank; pub mod sized_communicator; pub use data_by_rank::DataByRank; pub use sized_communicator::SizedCommunicator; pub type Rank = mpi::Rank; }\n",
        main_rs="fn main() { c03::communication::data_by_rank::vx::run() }\n",
        deps=["mpi", "vxcore"],
    )
