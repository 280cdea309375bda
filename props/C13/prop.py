import sweepmirror

LEVEL = "proof"
S = "src/sweep/"


def run(ctx):
    ctx.assumptions += [
        "verus: rates, areas and lengths are real numbers: rounding is left to the executable contract",
        "verus: the generic Sweep<C> is checked for one real number per direction and any chemistry that lets through between nothing and everything (proved of HydrogenOnly::get_outgoing_rate)",
        "verus: BinaryHeap, HashMap and DataByRank indexing hold what was put in (DataByRank's contract is C03); a delivered message is what the communicator says it is (C04)",
        "verus: the exponential function is positive, and at most one for negative arguments; proton mass and cross section are positive; diman's is_positive/is_negative/comparison compare with zero",
        "verus: the second mutable reference to self in solve_task (unsafe) is taken for self, the cell it reads for a copy of it (nothing in the loop writes cells: proved by the frame conditions)",
        "verus: preconditions assumed of callers: every site has a slot per direction, active cells wait for at least as many neighbours as will hand something to them (C12), neighbours are known cells",
        "executable contract: the stand-in for MPI delivers in order per pair of ranks and tag; grids have mutual faces with opposite normals and no cyclic dependencies",
    ]
    ctx.verus("verus.rs", [S + "mod.rs::Sweep::" + f for f in ("get_level", "is_active", "get_outgoing_rate", "solve_task", "handle_local_neighbour", "handle_local_periodic_neighbour", "handle_remote_neighbour", "handle_remote_periodic_neighbour", "receive_messages_from_rank")]
        + [S + "grid/cell.rs::Face::points_upwind", S + "grid/cell.rs::Face::points_downwind", S + "grid/cell.rs::Cell::iter_downwind_faces"]
        + [S + "site.rs::Site::source_per_direction_bin", S + "site.rs::Site::get_rate", S + "direction/mod.rs::Directions::len", S + "direction/mod.rs::Directions::index"]
        + [S + "count_by_dir.rs::CountByDir::reduce", S + "active_list.rs::ActiveList::get", S + "active_list.rs::ActiveList::get_mut", S + "active_list.rs::ActiveList::get_mut_and_active_state"]
        + ["src/chemistry/mod.rs::Photons::make_positive", "src/chemistry/hydrogen_only/mod.rs::HydrogenOnly::get_outgoing_rate"])
    ctx.concrete(
        "c13",
        "bounded: the whole sweep on seeded grids of up to 4 ranks, 24 cells and 4 levels, several global steps, random orders of message arrival; hydrogen absorption on seeded cells",
        files=sweepmirror.files(sweepmirror.WORLD + open(ctx.dir + "/contract.rs").read()),
        lib_rs=sweepmirror.LIB,
        main_rs="fn main() { c13::sweep::vx::run() }\n",
        deps=sweepmirror.DEPS,
    )
