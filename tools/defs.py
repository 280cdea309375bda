#!/usr/bin/env python3
"""The properties, and what each check claims.  Writes /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique=None, level=None, note=None, na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), _t=technique, _l=level, _n=note, _na=na))

SYMX = "contract-based deductive verification: the real functions, compiled over symbolic reals, run on all paths; every postcondition discharged for all inputs by polynomial algebra or z3"
VERUS = "contract-based deductive verification: Verus on functions extracted from /repo on every run"

prop("C01", "File distribution assigns every entry to exactly one rank",
  "For every list of file sizes and every number of ranks, the regions handed out for reading cover every entry of every file exactly once, in order, with no empty region, and each rank gets the number of entries it is due. The same holds for writing, for every list of per-rank counts and every number of files. The assignment computed for one rank is that rank's part of the whole.",
  ["inputs", "configurations"], "all file sizes, per-rank counts, numbers of files and ranks whose total fits a machine word",
  "The tests fix three shapes; a lost or doubled entry needs an empty file, a boundary that falls on a file end, or more ranks than entries.",
  ["src/io/file_distribution.rs"], [("region splitting", "get_regions_from"), ("per-rank walk", "get_rank_assignment"), ("counts", "get_input_rank_assignment, get_output_rank_assignment")],
  VERUS, "proof", "All obligations on the seven functions discharged for all inputs; std iterator adapters replaced by verified helpers; an executable contract on the compiled code finds failing inputs.")

prop("C02", "Space-filling-curve keys are a hierarchical, gap-free curve",
  "In 2D and 3D, different grid positions get different keys and every key belongs to a position. Halving the grid never separates what the key groups: positions share their leading key digits exactly when they share their leading coordinate bits, and positions with consecutive keys are neighbours on the grid. A point inside the given extent always maps onto the grid, monotonically in each coordinate.",
  ["inputs"], "all integer grid positions (2^64 in 2D, 2^126 in 3D) and all points inside any extent",
  "The only test checks the 2D inverse on 900 positions in one corner of the grid, where the upper 27 levels of the curve are all in one state; the 3D curve has no test.",
  ["src/peano_hilbert.rs", "src/domain/key.rs"], [("2D curve", "PeanoKey2d::from_integer_pos, rot"), ("3D curve", "PeanoKey3d::from_integer_pos, ROTATION_TABLE, SUBPIX_TABLE"), ("scaling", "from_point_and_min_max, get_integer_position_2d/3d"), ("keys of positions", "IntoKey")],
  VERUS, "proof", "Both curve functions and the 3D tables proved for all grid positions (bijective, hierarchical, adjacent); the scaling of floating-point points to the grid is a bounded executable contract.")

prop("C03", "Per-rank containers behave as maps from rank to value",
  "After any history of constructions, insertions, removals, changes and iterations, a per-rank container holds for every rank exactly the value last stored for it and nothing for the others. Iterating, draining and collecting yield each stored value once, with its rank, in ascending order of rank. A container made for a communicator holds an entry for every rank but one's own (or for every rank where that is asked for).",
  ["histories", "inputs"], "all sequences of operations and all ranks",
  "Two tests insert three ranks and iterate once; removal, overwriting, growth, draining and the own-rank hole are never exercised.",
  ["src/communication/data_by_rank.rs", "src/communication/sized_communicator.rs"], [("map", "DataByRank"), ("iteration", "IntoIter::next, iter, iter_mut, drain_all"), ("own rank excluded", "from_closure_size_and_rank, other_ranks")],
  VERUS, "proof", "Ten functions proved for all histories through their contracts; one-line std adapter chains (iter, iter_mut, drain_all, size, clone, from_iter) are covered by a bounded executable contract.")

prop("C04", "Collective exchange delivers every message exactly once",
  "Whatever each rank hands to an all-to-all exchange, every rank receives from every other rank exactly what that rank addressed to it, in order, including nothing at all, for any number of ranks and any interleaving. Repeated exchanges and exchanges of different types do not mix. Gathering operations return every rank's contribution in rank order, and global sums, minima, maxima and numbers of rounds agree on all ranks.",
  ["schedules", "inputs", "histories"], "all numbers of ranks, all message sets, all interleavings of the ranks",
  "Tests here run on one rank, where there is nobody to exchange with; a rank that is skipped, a message matched to the wrong exchange or a wrong displacement needs three ranks with uneven data.",
  ["src/communication/exchange_communicator.rs", "src/communication/mpi_world.rs", "src/communication/sized_communicator.rs"], [("exchange", "exchange_all, receive_vec, empty_send_to_others"), ("gather", "all_gather_varcount"), ("tags", "get_tag_for_type"), ("rounds", "divide_into_chunks_with_same_num_globally")])

prop("C05", "Signs of determinants are exact",
  "For every matrix of size 3, 4 or 5 whose entries are zero or of magnitude 1e-50 to 1e50, the sign reported for its determinant is the sign of the exact determinant, however close to singular the matrix is. The determinant functions themselves are the determinant for every number type they are used with. The sign of a product is the product of the signs.",
  ["inputs"], "all matrices of doubles that are zero or of magnitude 1e-50 to 1e50",
  "Tests compare a few stored matrices; a wrong sign needs a near-singular matrix of a particular scale and breaks the triangulation far away from its cause.",
  ["src/voronoi/math/utils.rs", "src/voronoi/math/precision_types.rs"], [("determinants", "determinant3x3, determinant4x4, determinant5x5"), ("float filter", "compare_result_against_entries, determine_sign_with_arbitrary_precision_if_necessary"), ("exact fall-back", "lift_matrix")],
  SYMX, "proof", "Determinant identities for every number type, the filter loop and Sign operations discharged over the reals; rounding of the float filter is a counted-roundings argument plus an executable contract against exact integers; one known finding (the filter trusts rounding errors of nearly singular matrices).")

prop("C06", "Linear systems are solved or refused, never answered wrongly",
  "For every regular system the general solver returns the one solution, whatever the order of the rows and wherever zeros stand. The fast 3x3 solver either returns that solution or reports that the system is too close to singular; it reports every system whose pivots fall below the threshold.",
  ["inputs"], "all 2x3, 3x4 (and larger) systems over the exact numbers",
  "Five fixed systems are tested, none of which takes every pivot order; a wrong row swap only shows for particular zero patterns.",
  ["src/voronoi/math/utils.rs"], [("elimination", "solve_system_of_equations, swap_rows, backward_substitution"), ("fast solver", "solve_3x4_system_of_equations_error, add_row_to_another")],
  SYMX, "proof", "Both solvers discharged on all pivot orders over the reals (2x3 and 3x4 systems); rounding and larger systems by a bounded executable contract.")

prop("C07", "Rotating the directions keeps geometry and photons",
  "For every axis of unit length and every angle the rotation keeps all lengths, angles and orientation, and turns vectors by that angle about that axis; random rotations always have a unit axis. All predefined direction sets consist of unit vectors, have the size asked for, no duplicates and no net direction. When the directions are rotated, the photons carried per direction are redistributed without loss or gain.",
  ["inputs", "histories"], "all axes, angles, vectors, random draws, direction sets and photon rates",
  "Tests draw 100 rotations from two seeds and look at the determinant and one vector's length only; redistribution has no test.",
  ["src/sweep/direction/mod.rs", "src/sweep/direction/healpix.rs"], [("rotation", "get_rotation_matrix, get_random_rotation_matrix, multiply_by_matrix"), ("sets", "Directions::from_num, DIRECTION_BINS_*"), ("redistribution", "remap, kernel_f")],
  SYMX, "proof", "Rotation, random axis and redistribution discharged over the reals (redistribution for up to three directions); direction tables and larger sets by an executable contract.")

prop("C08", "Bounding boxes contain exactly what they should",
  "The box computed from any non-empty set of points or boxes contains all of them, is the smallest such box and has its center in the middle; none is computed from nothing. The box enlarged for periodic images is three times as large and contains the box and all its images, the box around a sphere contains the sphere, and a box contains exactly the points and boxes between its corners. Splitting a box into quadrants covers it without overlap, every point of it being in the quadrant selected for it.",
  ["inputs"], "all point sets and boxes in 1D, 2D and 3D",
  "The one test that runs uses three points in 2D; 3D, ordering, periodic enlargement and quadrant selection are untested here.",
  ["src/extent.rs", "src/domain/extent.rs", "src/voronoi/math/traits.rs"], [("reduction", "get_extent_from_min_and_max_reduce, from_points, from_positions"), ("enlargement", "including_periodic_images, max_side_length"), ("quadrants", "get_quadrants, get_quadrant_index")],
  SYMX, "proof", "Discharged over the reals for all boxes and for up to 4/3/2 points in 1D/2D/3D in any positions; larger point sets and rounding by a bounded executable contract.")

prop("C09", "Timestep levels tile the global step",
  "Within one global step every cell is active exactly as often as its level demands, its own substeps end where the next one begins, and together they cover the global step exactly once. A cell is only moved to a level at which it is synchronised, and levels outside the permitted range never occur. The level assigned to a desired timestep is the largest step that does not exceed it. What a cell desires is the safety factor times the shorter of the times in which its photon rate, where significant, and its gas change by their own size.",
  ["inputs", "histories"], "all numbers of levels, level assignments and desired timesteps",
  "A step schedule has 2^levels substeps; tests run a few full simulations that cannot run here at all.",
  ["src/sweep/timestep_level.rs", "src/sweep/timestep_state.rs", "src/sweep/mod.rs"], [("levels", "TimestepLevel"), ("schedule", "TimestepState"), ("iteration", "Sweep::run_sweeps")])

prop("C10", "Domain decomposition gives every key exactly one owner",
  "However the particles' keys are distributed, the cuts that divide the key range among the ranks are in order and cover the whole range, so every key has exactly one owner, which is one of the ranks, and all ranks agree on it. The load reported for a segment is the number of particles its rank owns, and the loads add up to the total. Keys that are spread out over the range are shared equally, and the cuts do not depend on which rank holds which particle.",
  ["inputs", "configurations"], "all sets of keys below the largest number of their type, including duplicates and extremes, and all numbers of ranks, each holding at least one particle",
  "The tests use spread-out keys; ties, odd and extreme keys and more ranks than keys are where a cut search goes wrong.",
  ["src/domain/decomposition.rs", "src/domain/key.rs"], [("cut search", "Decomposition::new, Decomposer::find_segments, find_cut_for_next_segment, binary_search"), ("loads", "KeyCounter, ParallelCounter"), ("owner", "get_owning_rank"), ("bisection", "Key::middle, Key::next")])

prop("C11", "Periodic wrapping, distances and images are exact",
  "Wrapping moves any point into the box by whole box lengths and leaves points inside the box untouched. For points no further apart than one and a half box lengths per coordinate, the periodic distance is symmetric, does not depend on which image of a point is used, and is the smallest distance over all images. The images of a point are one for each combination of staying or moving one box length down or up in each coordinate, each labelled with the move that made it, and exactly the unmoved one counts as not periodic; a halo search keeps the image that lies within its radius, with that label.",
  ["inputs"], "all boxes, points and pairs of points, up to rounding",
  "Tests use two boxes and a dozen points; the images and their labels, which decide where halo cells end up, have no test at all.",
  ["src/simulation_box.rs", "src/voronoi/constructor/parallel/mod.rs"], [("wrap", "periodic_wrap, periodic_wrap_component"), ("distance", "periodic_distance_vec, periodic_distance, minimize_component"), ("images", "iter_periodic_images, WrapType, PeriodicWrapType3d::as_translation, is_periodic"), ("halo image", "find_wrapped_point")],
  SYMX, "proof", "All clauses on the 3D build discharged over the reals for all boxes and points; rounding and the halo image by a bounded executable contract.")

prop("C12", "Each cell is swept once per direction, after all its upwind neighbours",
  "In every sweep, each active cell is solved exactly once for each direction, and only after all active upwind neighbours, local or remote, have been solved for that direction. Remaining-work counters start at the number of solves due, never go below zero, and the sweep ends exactly when they are all zero. Data for a cell is only ever stored in and read from that direction's slot.",
  ["schedules", "inputs", "histories"], "all grids, directions, level assignments and message orders",
  "Order of tasks and arrival of messages vary; tests see one order.",
  ["src/sweep/count_by_dir.rs", "src/sweep/mod.rs", "src/sweep/active_list.rs", "src/sweep/task.rs"], [("counters", "CountByDir"), ("dependencies", "init_counts, solve_task, handle_*_neighbour"), ("active cells", "ActiveList")])

prop("C13", "Photons are neither created nor lost on the way through a cell",
  "What enters a cell plus what it emits equals what it absorbs plus what it passes on, for every direction. What is passed on is shared among the downwind faces in fractions that add up to one, and nothing goes to an upwind face.",
  ["inputs"], "all cell geometries, directions and rates",
  "Conservation is a sum over faces and directions; tests check a few totals with loose tolerances.",
  ["src/sweep/mod.rs", "src/chemistry/hydrogen_only/mod.rs"], [("absorption", "get_outgoing_rate"), ("distribution", "effective areas, handle_local_neighbour")])

prop("C14", "Chemistry keeps the gas physical",
  "For every valid state of the gas (any initial ionized fraction in [0, 1]), photon rate and timestep, the ionized fraction ends up strictly between zero and one, the temperature is positive and finite, and with prevent_cooling neither falls below where it started. The requested time is covered exactly by substeps, each of which changes temperature and fraction by at most the allowed relative amount and starts where the last one ended; the reported timescale is the time over which, at the rates of the last substep, the first of both would change by the allowed amount, and no shorter than that substep. To first order in the timestep, the fraction changes by ionizations minus recombinations and the temperature by heating minus cooling. Rate coefficients are non-negative, their derivatives are the derivatives of the rates, no more atoms are ionized than photons arrive, and the heat is what the absorbed photons have beyond the ionization energy.",
  ["inputs"], "all densities, temperatures, ionized fractions, rates and timesteps in the valid range",
  "The range spans tens of orders of magnitude; tests sample a dozen states.",
  ["src/chemistry/hydrogen_only/mod.rs", "src/chemistry/timescale.rs", "src/chemistry/mod.rs"], [("solver", "Solver"), ("timescale", "Timescale")])

prop("C15", "Units and cosmological conversions are consistent",
  "Every unit and physical constant has its value, every unit is written with its own symbol, quantities have the dimensions they are named for, and reading a value back in its unit gives that value. A cosmological quantity becomes physical by dividing out exactly its powers of the scale factor and of little h, its other dimensions staying as they are, and conversions compose. Data of an Arepo snapshot, whatever its exponents of length, velocity, mass, scale factor and h, is scaled to physical SI units, has the dimension those exponents say, and cosmological data is refused in a run without cosmology. Temperature and energy are converted by the number of particles there are, and back. Time passes between scale factors as the Friedmann equation of a flat universe has it, times add up, and the scale factor found for a time is that of the time to within 100 years, at any time, with the redshift that belongs to it; the scale factor and redshift of a running simulation follow its time. A universe that is not flat is refused.",
  ["inputs"], "all scale factors, Hubble parameters and exponents",
  "Tests check a few values of one conversion.",
  ["src/cosmology.rs", "src/units", "src/io/unit_reader.rs", "src/arepo_postprocess/unit_reader.rs", "src/time_spec.rs"], [("cosmology", "Cosmology, CosmologyParams, binary_search"), ("units", "Dimension, unit_system!, specific_impls.rs"), ("reading", "ArepoUnitReader"), ("time of an output", "TimeSpec::new")])

prop("C16", "Chunked transfers cover every element once within their limits",
  "Reading a file in chunks, or exchanging data in rounds, visits every element exactly once and in order; no chunk is empty or larger than the limit, and all ranks take part in the same number of rounds.",
  ["inputs", "configurations"], "all lengths, chunk sizes and numbers of ranks",
  "Boundary lengths and exact multiples are what break; tests use round numbers.",
  ["src/communication/exchange_communicator.rs", "src/io/input/mod.rs"], [("rounds", "divide_into_chunks_with_same_num_globally, div_ceil"), ("reading", "get_chunk_sizes / read in chunks")])

prop("C17", "Values sent as messages come back unchanged",
  "Every value that is packed into a message, be it an optional value, an identified value, a curve key, a direction index or a tree-node index, unpacks to an equal value, and the memory layout announced for it covers exactly its bytes. Missing values stay missing and are never read.",
  ["inputs"], "all values of all message types",
  "Tests round-trip a handful of values; layout mistakes show only in fields or values they do not contain.",
  ["src/communication/communicated_option.rs", "src/communication/identified.rs", "src/quadtree/node_index.rs", "src/peano_hilbert.rs", "src/extent.rs"], [("option", "CommunicatedOption"), ("layout", "equivalent_datatype"), ("node index", "NodeIndex from/into u8")])

prop("C18", "Cartesian grids have symmetric neighbours and the right faces",
  "Whenever the sides of the box are whole multiples of the cell size (up to rounding), the cells of a regular grid tile the box, their volumes adding up to its volume. Every cell has two faces per dimension with unit normals and the area of a side; neighbourhood is mutual, with opposite normals and equal areas. At the border periodic grids continue on the other side, with the sense of the wrap, and others end in boundaries. On any number of ranks every cell is held by exactly one rank under one identifier, which all ranks agree on, and a rank keeps halo copies of exactly the remote neighbours of its cells.",
  ["inputs", "configurations"], "all box sizes, cell sizes and numbers of ranks, periodic or not (3D)",
  "Tests that run here build no grid; wrong wraps need unequal sides, wrong halos several ranks, and a lost layer of cells a ratio that rounds down.",
  ["src/sweep/grid/cartesian.rs", "src/sweep/grid/cell.rs"], [("cells", "NumCellsSpec, IntegerPosition"), ("neighbours", "GridConstructor::construct_neighbours, get_neighbour"), ("distribution", "GridConstructor::construct, spawn_local_cells, init_cartesian_grid_system")],
  SYMX, "proof", "Any cell of any grid (coordinates, numbers of cells and ranks symbolic integers, lengths symbolic reals): faces, normals, areas, wrapping, mutual neighbourhood discharged; the walk over all cells, identifiers and halos by a bounded executable contract on the whole construction.")

prop("C19", "Neighbour search in the tree misses nothing",
  "A radius search around any point in (or within half a box of) the box returns exactly the particles whose nearest periodic image is within the radius, once each. The tree holds every particle exactly once, in a leaf whose box contains it; a node counts the particles below it, the children's boxes divide their parent's, the tree is no deeper than its limit, and a leaf overflows only at that depth. A distributed search asks every rank that holds a particle within the radius, whichever ranks hold none.",
  ["inputs", "configurations"], "all particle sets, radii, tree parameters, boxes and distributions over ranks",
  "Tests that run here contain no search; coincident points, borders, deep trees and ranks without particles are what break.",
  ["src/quadtree/mod.rs", "src/quadtree/radius_search.rs", "src/domain/extent.rs", "src/domain/decomposition.rs", "src/domain/mod.rs"], [("tree", "QuadTree::new, insert, subdivide, get_quadrants, get_quadrant_index"), ("search", "TreeIter, PeriodicRadiusSearch, bounding_boxes_overlap_periodic"), ("ranks", "rank_owns_part_of_search_radius, communicate_extents")],
  SYMX, "proof", "Single steps (quadrant of a point, division of a box, nodes a search visits, ranks it asks) discharged over the reals for any box, node, particle and radius; whole trees with up to 3 symbolic particles; larger trees, rounding and the exchange of extents by a bounded executable contract.")

prop("C20", "Triangle and tetrahedron predicates agree with exact geometry",
  "For every nondegenerate tetrahedron or triangle and every point not within rounding error of the boundary, the answers to whether the point is contained (whatever the order of the vertices), whether it is inside the circumsphere or circumcircle (for positive orientation) and which edges of a triangle a line passes outside of are the exact ones; the circumsphere test of tetrahedra is exact without exception, and so is containment in tetrahedra of the size of remapped cells. Circumcenters have equal distance from all vertices, distances are those of the closest point, and areas of convex polygons are right. The initial simplex strictly contains the extent and is positively oriented; remapping scales all coordinates alike and takes the longest side of the extent to [1, 2].",
  ["inputs"], "all simplices and points, including nearly degenerate ones",
  "Nearly degenerate configurations decide the triangulation; tests contain a few.",
  ["src/voronoi/primitives/triangle.rs", "src/voronoi/primitives/tetrahedron.rs", "src/voronoi/primitives/polygon3d.rs", "src/voronoi/utils.rs", "src/dimension.rs"], [("triangle", "TriangleData: contains, circumcircle_contains, get_line_intersection_type, closest_point, distance_to_point"), ("tetrahedron", "TetrahedronData: contains, circumcircle_contains, get_center_of_circumcircle, distance_to_point, all_encompassing"), ("areas", "Polygon3d::area, periodic_windows_2, arrange_cyclic_by"), ("remapping", "Dimension::remap_point")],
  SYMX, "proof", "Float and exact branch of every predicate discharged over the reals by algebra and z3 (closest point: triangles in coordinate planes); that rounding is always caught, areas, ring arrangement and tetrahedron distance by a bounded executable contract against exact rational arithmetic.")

prop("C21", "Outputs are written at every due time and numbered without gaps",
  "Across any sequence of steps an output is written exactly when the simulation time has reached the next output time or the run ends; the n-th output (counting from zero) is due n intervals after the time of the first one. Snapshots are numbered consecutively from zero, and no two share a name. The run ends with the step in which its final time is reached. A field that never changes is in the first snapshot only, every other field in all of them.",
  ["histories"], "all intervals, times of the first output, final times and sequences of steps",
  "A schedule is a history; no test that runs here looks at one.",
  ["src/io/output/timer.rs", "src/io/output/mod.rs", "src/simulation_plugin/mod.rs"], [("timer", "Timer"), ("names", "get_snapshot_dir"), ("end of the run", "stop_simulation_system")])

prop("C22", "Identifiers in the triangulation store always name what was stored",
  "After any history of insertions and removals, an identifier yields the element it was handed out for, or nothing once that element is removed, and never another element. Iteration yields every live element once with its identifier, and the length is their number.",
  ["histories"], "all sequences of insertions, removals, lookups and iterations",
  "The wrappers have no test of their own.",
  ["src/voronoi/indexed_arena.rs"], [("arena", "IndexedArena"), ("vector", "IndexedVec")],
  VERUS, "proof", "Wrapper functions proved against assumed contracts of generational_arena and Vec; the dependency itself is exercised by a bounded executable contract.")

prop("C30", "The triangulation is Delaunay and its dual is the Voronoi grid",
  "For every set of points in general position, after each insertion the tetrahedra are positively oriented, fill the initial tetrahedron, are linked to each other across every shared face, and no point lies inside the circumsphere of any of them; every tetrahedron at the new point is reported as new. A bounded cell of the grid has exactly the faces, areas, normals, neighbours, volume and size of the Voronoi cell of its point, contains exactly the points nearest to its own, and unbounded cells are called infinite, whatever the extent. Constructed on any number of ranks, every particle has on its rank the cell it has among all particles of the (periodic) box, with the right type, rank, identifier and wrap of every neighbour (the boundary in place of periodic images in a box that is not periodic); a halo exists for every neighbour on another rank. Degenerate sets are refused with an error, never turned into a wrong grid.",
  ["inputs", "schedules", "configurations"], "all point sets in general position, orders of insertion, box shapes, numbers of ranks",
  "Tests construct a few random grids, compare some volumes, and never with more than one rank.",
  ["src/voronoi/delaunay/mod.rs", "src/voronoi/delaunay/impl_3d.rs", "src/voronoi/delaunay/point_location.rs", "src/voronoi/cell.rs", "src/voronoi/triangulation_data.rs", "src/voronoi/constructor/mod.rs", "src/voronoi/constructor/halo_iteration.rs", "src/voronoi/constructor/parallel/mod.rs", "src/dimension.rs"],
  [("insertion", "Triangulation::insert, split, flip"), ("flips", "two_to_three_flip, three_to_two_flip, perform_flip_checks"), ("location", "find_containing_tetra"), ("cells", "Cell::new, get_faces, TriangulationData"), ("haloes", "HaloIteration, HaloCache, ParallelSearch"), ("grid", "Constructor, construct_grid_system")],
  SYMX, "proof", "Proved for all coordinates: splits and both flips keep orientation, volume, faces and links. That the sequence of flips ends in a Delaunay triangulation, the cells and the distributed grid (1 to 4 simulated ranks) are bounded: seeded point sets against exact arithmetic and clipping.")
prop("C31", "A distributed run finishes and gives the single-rank result",
  "For every number of ranks and every message timing, the run terminates and produces the fields of a single-rank run.",
  ["schedules", "configurations"], "all rank counts and timings",
  "Tests run one rank.",
  ["src/sweep", "src/communication"], [("sweep", "Sweep::run_sweeps")],
  na="The whole program runs inside the bevy scheduler and MPI with a hierarchy of asynchronous sends; liveness over all message schedules is not a postcondition of any function a deductive verifier here can take. The per-rank obligations (counters, exchange, exactly-once) are C03, C04 and C12.")
prop("C32", "Snapshots read back as written",
  "Every field that the ranks write to a snapshot, in any number of files, is read back by any number of ranks with the same values in the same order, and with the dimension it was written with, including its powers of the scale factor and of little h; data of another dimension is refused. Every entry of every file is written exactly once, into the place that was made for it, and no two ranks have a file open for writing at the same time.",
  ["inputs", "configurations"], "all fields, values, numbers of particles per rank, numbers of files and of reading ranks",
  "The tests of input and output need HDF5, which is not available here; they write one file on one rank.",
  ["src/io/output/mod.rs", "src/io/unit_reader.rs", "src/io/input/mod.rs"], [("creating", "create_file_system, create_dataset_in_files, add_dimension_attrs"), ("writing", "open_file_system, write_dataset_to_files"), ("reading", "Reader, DefaultUnitReader"), ("taking turns", "init_wait_for_other_ranks_system, finish_wait_for_other_ranks_system")])

def claim(id, technique, level, note):
    p = next(p for p in P if p["id"] == id)
    p.update(_t=technique, _l=level, _n=note)

claim("C04", VERUS, "proof", "The exchange functions proved for all message sets, ranks and histories against assumed contracts of MPI's send and receive; interleavings of several ranks, gathers and tags by a bounded executable contract on a simulated MPI.")
claim("C16", VERUS, "proof", "Chunk sizes, division into chunks and the number of rounds proved for all lengths, limits and ranks; the reading loop over HDF5 by a bounded executable contract on a stand-in for the library.")
claim("C17", VERUS, "proof", "Optional values and node indices proved for all values; announced memory layouts are compared with the real layout of every message type (exhaustive over types and fields), values round-trip in a bounded executable contract.")
claim("C12", VERUS, "proof", "Counters, lists of active cells and every step of the sweep (solving a task, handing on, receiving) proved for all histories; the sweep as a whole (order, exactly once, end) by a bounded executable contract on the whole sweep over a simulated MPI.")
claim("C09", VERUS, "proof", "The schedule of a step, the permitted levels over all steps and synchronisation proved for all numbers of levels; the level of a desired timestep (floating-point logarithm) and whole sweeps by a bounded executable contract.")

claim("C10", VERUS, "proof", "Order and coverage of the cuts, ownership and loads proved for all keys and ranks; equal shares of spread-out keys and agreement between ranks by a bounded executable contract on the compiled code.")
claim("C13", VERUS, "proof", "solve_task, its helpers and hydrogen absorption proved over the reals for all grids, rates and histories (shares add up, only downwind, only this direction); rounding and whole multi-rank sweeps by a bounded executable contract; one known finding (corrections to inactive cells of other ranks are dropped).")

claim("C14", VERUS, "proof", "Substepping, limits, floors and timescales proved for all states and histories with the changes of a substep as given; rates, their derivatives and the first-order changes discharged over the reals from the compiled code; rounding, extreme states and the whole solver by a bounded executable contract.")
claim("C15", VERUS, "proof", "Conversions, the Arepo reader and the search for a scale factor proved for all exponents and scale factors; temperatures, energies and the Friedmann equation discharged over the reals from the compiled code; the values of units and constants compared one by one, rounding by a bounded executable contract.")
claim("C21", VERUS, "proof", "The timer's systems and all histories of them proved over real times; names of snapshots and the end of the run by a bounded executable contract.")
claim("C32", VERUS, "proof", "Creating, writing and the dimension attributes proved against assumed contracts of HDF5 (every entry to its place, dimension read = dimension written); the way through files, ranks and the reader by a bounded executable contract on stand-ins for HDF5 and MPI.")

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks, na = [], []
    for p in P:
        if p["_t"]:
            checks.append(dict(property=p["id"], quick_cmd="./check %s quick" % p["id"], thorough_cmd="./check %s thorough" % p["id"], technique=p["_t"], level=p["_l"], level_note=p["_n"]))
        else:
            na.append(dict(property=p["id"], reason=p["_na"] or "planned; the check is not built yet"))
    m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
if __name__ == "__main__":
    main()
