import sweepmirror

LEVEL = "proof"
S = "src/sweep/"


def run(ctx):
    ctx.assumptions += [
        "verus: comparison of two TimestepLevels is comparison of their numbers (derived), *index of a DirectionIndex is its number (derived Deref)",
        "verus: (0..n).map(|_| v).collect() and iter().sum() behave like the verified helpers they are replaced with; the sum fits a machine word",
        "verus: rates are real numbers (only who gets one matters here); BinaryHeap, HashMap and DataByRank indexing hold what was put in; the second mutable reference to self in solve_task (unsafe) is taken for self",
        "verus: preconditions assumed of callers: every site has a slot per direction, active cells wait for at least as many neighbours as will hand something to them, neighbours are known cells, received messages are expected ones",
        "executable contract: the stand-in for MPI delivers in order per pair of ranks and tag; grids have mutual faces with opposite normals and no cyclic dependencies",
    ]
    ctx.verus("verus.rs", [S + "count_by_dir.rs::CountByDir::" + f for f in ("new", "total", "reduce", "empty", "index", "index_mut")]
        + [S + "timestep_level.rs::TimestepLevel::is_active"]
        + [S + "active_list.rs::ActiveList::" + f for f in ("get_id_from_index", "get_mut_and_active_state", "get_mut", "get_mut_with_level", "get", "get_level", "set_level", "update_bins")]
        + [S + "mod.rs::Sweep::" + f for f in ("get_level", "is_active", "get_outgoing_rate", "solve_task", "handle_local_neighbour", "handle_local_periodic_neighbour", "handle_remote_neighbour", "handle_remote_periodic_neighbour", "receive_messages_from_rank")]
        + [S + "grid/cell.rs::Face::points_upwind", S + "grid/cell.rs::Face::points_downwind", S + "grid/cell.rs::Cell::iter_downwind_faces"])
    ctx.concrete(
        "c12",
        "bounded: the whole sweep (mod.rs, communicator.rs, deadlock_detection.rs, ...) on seeded grids of up to 4 ranks, 24 cells and 4 levels, several global steps, random orders of message arrival; histories of counters and of lists of cells",
        files=sweepmirror.files(sweepmirror.WORLD + open(ctx.dir + "/contract.rs").read()),
        lib_rs=sweepmirror.LIB,
        main_rs="fn main() { c12::sweep::vx::run() }\n",
        deps=sweepmirror.DEPS,
    )
