"""Writes properties.jsonl (single source for the property texts)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
S = "lattpy/structure.py"; L = "lattpy/lattice.py"; D = "lattpy/data.py"
SP = "lattpy/spatial.py"; B = "lattpy/basis.py"; A = "lattpy/atom.py"; U = "lattpy/utils.py"
SH = "lattpy/shape.py"
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))


p("C01", "Saved lattices load back identical, however the I/O behaves",
  "Whenever saving a lattice to a file returns normally, loading that file gives a lattice with the same unit cell, "
  "atoms and atom attributes, sites, neighbors, distances and periodic links as the lattice had at the moment of saving, "
  "and every later operation behaves on it as on the original. This holds for any history of operations and earlier "
  "saves to the same or other files, and for any legal I/O behaviour (short reads and writes, any buffering, files opened by several savers in turn).",
  ["histories", "fault_sequences", "configurations"],
  "every history of lattice operations and saves/loads, every legal splitting of the reads and writes",
  "dump and load are marked 'no cover' and have no test at all; tests cannot sample I/O splittings or re-save histories.",
  [L, S, A, D], [("dump/load via pickle", L), ("dump/load via pickle", S), ("Atom slots and attribute access", A)],
  [("saved file", "pickle of the whole lattice", L)], ["Lattice.dump", "Lattice.load", "all queries of the loaded lattice"])

p("C02", "A save cut short is never taken for a good one",
  "If any I/O step of a save fails (full disk, I/O error, error on close, unserialisable content) or the process dies at any "
  "byte of it, the save raises instead of returning normally, and loading that path afterwards either raises or returns exactly "
  "a lattice that was completely handed to a save of that path - never a partial or altered one. The lattice in memory is "
  "unchanged by the failed save, an error while loading is raised to the caller, and retrying the save or load once the fault is gone succeeds completely.",
  ["crash_points", "fault_sequences", "histories"],
  "every crash point and every I/O error position inside a save or load, after any history",
  "No test exercises dump/load; a unit test cannot enumerate crash bytes and errno positions.",
  [L, S], [("with open(...): pickle.dump", L), ("with open(...): pickle.dump", S), ("pickle STOP opcode ends every complete image", L)],
  [("file content", "prefix of a pickle image after a crash", L)], ["return or exception of dump", "Lattice.load of the path after the fault"])

p("C03", "A failed build never leaves a half-built lattice",
  "When building a finite lattice fails - the user's callback or shape object raises, the neighbor search runs out of memory or "
  "loses a worker, or an argument is rejected - the error reaches the caller and the lattice is afterwards exactly one of: the finite model it had "
  "before, the requested new model (with or without its periodic boundaries), or cleanly unbuilt (no sites, no shape, no periodic axes, operations that need "
  "a built lattice refuse). Sites, neighbors, shape, position and periodic axes never come from different models, and the unit cell is untouched.",
  ["fault_sequences", "crash_points", "histories"],
  "every point at which user code or the neighbor search can fail inside a build, after any history of builds and boundary changes",
  "Tests only build successfully; no test lets a build fail on an already built lattice.",
  [L, S, D], [("reset, compute, then commit in build", L + ":Lattice.build"), ("LatticeData.set", D)],
  [("data", "cached sites and neighbors", L), ("shape/pos/periodic_axes/primitive", "summary of the finite model", L)],
  ["queries of the lattice after the failed call"])

p("C04", "After an interruption at any instant, rebuilding fully recovers",
  "If an exception (Ctrl-C, failed allocation) strikes at any instant inside building, periodic-boundary changes, appending, extending, "
  "repeating, removing, sorting or analyzing, then the unit cell (vectors, atoms, connections) and every other lattice are unaffected, and calling analyze and build again "
  "on the same object gives exactly the finite lattice a freshly configured object would have, with every later operation behaving the same.",
  ["crash_points", "fault_sequences", "histories"],
  "every interruption instant in every finite-lattice operation, for every history before and after it",
  "Tests never interrupt an operation; interruption instants are a quantifier a test list cannot cover.",
  [L, S, D], [("build resets and replaces all cached data", L + ":Lattice.build"), ("analyze recomputes from the definition", S + ":analyze")],
  [("data", "cached sites and neighbors", L)], ["all queries after the repeated build"])

p("C05", "Concurrent queries on one lattice answer as if run alone",
  "Any number of threads may query, export, copy or save the same built lattice at the same time: under every thread schedule each call returns "
  "what it would return if it ran alone, none raises because of the others, and the lattice is the same afterwards. This includes the first "
  "query of each kind, when lazily computed data does not exist yet.",
  ["schedules", "histories"], "every interleaving of read-only calls of several threads on a shared lattice",
  "All tests are single threaded.",
  [D, L, S, B], [("lazy data map is fully built before it is stored", D + ":LatticeData.map"), ("queries build new arrays and do not write to shared ones", L)],
  [("_dmap", "lazily created map", D)], ["return values in each thread", "queries after the threads joined"])

p("C06", "Threads using separate lattices never affect each other",
  "Threads that each configure, analyze, build, grow, re-bound, query, save and load lattices of their own get, under every thread schedule, exactly the results "
  "each would get running alone, and an exception in one thread changes nothing in another. Atoms created concurrently always have distinct indices.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of independent per-thread programs, with faults in some of them",
  "All tests are single threaded.",
  [L, S, D, A, SP], [("no module or class level state except the atom counter", A), ("itertools.count is atomic", A)],
  [("Atom._counter", "process wide atom index", A)], ["results in each thread"])

p("C07", "Worker count and scheduling never change the computed neighbors",
  "The sites, neighbors, distances and their order produced by building, extending, setting periodic boundaries or computing neighbors are identical for every number of "
  "parallel jobs (1, more than there are sites, or all processors), every processor count and every order in which the workers finish. If a worker fails, the call raises; it never returns a partial result.",
  ["schedules", "configurations", "fault_sequences"], "every job count, processor count, worker completion order and single worker failure",
  "Tests build with one job count on one machine and never control worker order.",
  [L, S, SP], [("KDTree.query passes workers to the search", SP + ":KDTree.query"), ("row-wise post-processing", S + ":_filter_neighbors")],
  [], ["build, extend, set_periodic, compute_neighbors results"])

p("C08", "A failed or interrupted query leaves no trace",
  "If a read-only call (any lookup, neighbor query, data map, matrix, distance, copy or export) fails or is interrupted at any instant, the lattice "
  "is unchanged, and asking again - for the same or any other query - gives the same answer as if the failed call had never been made.",
  ["crash_points", "fault_sequences", "histories"], "every interruption instant of every query on every built lattice",
  "Tests never make a query fail and re-ask.",
  [D, L, S, B], [("lazily computed data is stored only when complete", D + ":LatticeData.map"), ("queries do not write to the cached arrays", L)],
  [("_dmap", "lazily created map", D)], ["answers after the failed call"])

p("C09", "Copies and derived lattices are isolated from each other",
  "A lattice and any lattice obtained from it or fed into it (by copying, saving and loading, restoring from its dictionary, using it as basis, appending it) never influence each "
  "other afterwards: whatever operations, successful or failing, clients interleave on one, all the others keep answering exactly as before. "
  "Nor does a lattice change when the caller later changes an array it passed in, nor change such an array itself.",
  ["histories", "schedules", "fault_sequences"], "every interleaving of operations by clients holding related lattices, with failures",
  "Tests copy once and remove one site; they never interleave operations on related lattices.",
  [L, S, D, B, A], [("deepcopy in copy", L), ("_append copies its inputs", L + ":_append"), ("fromdict", S)],
  [("neighbors/distances/connections arrays", "mutable state that could be shared", D)], ["queries of all related lattices after every operation"])

p("C10", "Every view of a finite lattice agrees after any history",
  "After any sequence of builds, periodic-boundary changes, growing, removing and sorting, with queries and failed operations interleaved anywhere, all views describe the same lattice: neighbor lists per site and "
  "distance level, neighbor pairs, adjacency matrix, data map and the matrices built from it, neighbor checks, site lookups by position and index, shape and limits, and the periodic axes versus the periodic links. "
  "In particular a view computed before a change never survives it.",
  ["histories", "fault_sequences"], "every operation history with queries interleaved at every position",
  "Tests check one view right after one build; histories with earlier queries (cached views) are not sampled.",
  [D, L], [("cache invalidation on change", D), ("all views derive from the neighbor tables", D)],
  [("_dmap", "cached map", D), ("periodic_axes", "active periodic axes", L)], ["neighbors, neighbor_pairs, adjacency_matrix, dmap, check_neighbors, minimum_distances"])

p("C11", "Growing, trimming and re-bounding keep exactly the right bonds",
  "After any sequence of build, append, extend, repeat, site removal, sorting and periodic-boundary changes on a box-shaped lattice, including sequences in which some operations fail, the sites are exactly those of the "
  "original boxes moved by lattice translations (each site once), and two sites are linked exactly when their separation - directly or through one of the active periodic translations - is one of the configured neighbor "
  "distances of their two atoms. Every link is symmetric and carries that distance.",
  ["histories", "fault_sequences"], "every operation history over boxes large enough for the requested boundary conditions, with failures",
  "Tests check sizes after one extend or repeat and a few neighbors of one square-lattice append.",
  [L, D, S], [("_append and _compute_connection_neighbors", L), ("set_periodic and remove_periodic", D), ("remove, sort, add_neighbors", D)],
  [("neighbors/distances/pmask", "neighbor table with free slots", D)], ["neighbors and distances of every site compared with an independent model"])

p("C12", "A model is never built from an outdated unit-cell analysis",
  "After any sequence of adding atoms, setting connections, analyzing (possibly failing or interrupted) and building, a build or neighbor query either raises a configuration error or reflects exactly the atoms and "
  "connections configured at that moment. A rejected configuration call (occupied position, wrong dimension) leaves the unit cell as it was, and after any rejected, failed or interrupted call configuring can continue normally.",
  ["histories", "fault_sequences", "crash_points"], "every history of configuration calls with failures at any position",
  "Tests configure each unit cell once, in the canonical order.",
  [S, L, U], [("assertions before build and neighbor queries", S), ("analyze stores results at the end", S + ":analyze")],
  [("base neighbors, distance matrix", "result of the last analysis", S), ("connections", "configured distance levels", S)],
  ["build, get_neighbors, get_neighbor_vectors versus the definition in todict"])

p("C13", "Results depend only on the calls made, not on the environment",
  "Running the same sequence of calls gives bit-identical sites, neighbors, distances, maps and saved-and-reloaded lattices whatever the string-hash seed, state of the global random generators, clock, logging level, "
  "number of processors, working directory and lattices created or failed before in the same process. The library never draws from or reseeds the global random generators and leaves numpy's error and print settings and the working directory as they were.",
  ["configurations", "histories", "schedules"], "every environment and every unrelated history before the sequence",
  "Tests run once under PYTHONHASHSEED=0 in one environment.",
  [L, S, D, SP, A], [("ordered containers and sorting instead of hashing", S), ("no use of clocks or random numbers", SP)],
  [], ["digest of all results under different environments"])

# ---- pure functions of their input: not simulation targets --------------------------
p("N01", "Coordinate transforms are mutually inverse",
  "For every invertible basis, transforming to lattice coordinates and back returns the same point, and splitting a position into translation and cell offset and recombining them returns the position.",
  ["inputs"], "all bases and points", "Tests sample a few bases.", [B], [("inverse matrix", B)], observe=["transform", "itransform", "translate", "itranslate"])
p("N02", "Reciprocal vectors are dual to the lattice vectors",
  "For every basis in one to three dimensions each reciprocal vector has product two pi with its own lattice vector and zero with the others.",
  ["inputs"], "all bases", "Tests sample named bases.", [B], [("cross products", B + ":reciprocal_vectors")], observe=["reciprocal_vectors"])
p("N03", "Unit-cell analysis finds exactly the first distance shells",
  "For every unit cell and connection setting the neighbors found for an atom are exactly the infinite-lattice sites of the first configured distance levels of each atom pair.",
  ["inputs"], "all unit cells", "Tests sample common lattices.", [S, SP], [("neighbor cell enumeration", S)], observe=["get_neighbors", "distances"])
p("N04", "A build contains exactly the sites inside the requested shape",
  "For every lattice, shape and position the built sites are exactly the lattice points inside the shape (up to the stated tolerance), each once.",
  ["inputs"], "all lattices and shapes", "Tests sample boxes.", [S, SH], [("index limits and filtering", S)], observe=["build_indices"])
p("N05", "Shape containment agrees with the shape's limits and geometry",
  "For every shape the containment test accepts exactly the points of the geometric body, and all accepted points lie within the reported limits.",
  ["inputs"], "all shapes and points", "Tests sample random points for fixed shapes.", [SH], [("contains/limits", SH)], observe=["contains", "limits"])
p("N06", "Wigner-Seitz cell contains the points nearest to the origin",
  "The cell test accepts a point exactly when no other lattice point is closer to it than the origin.",
  ["inputs"], "all bases", "Tests sample a few bases.", [SP, B], [("Voronoi construction", SP)], observe=["WignerSeitzCell.check"])
p("N07", "Cell index and super-index conversion is a bijection",
  "Converting a cell index to a super-index for a shape and back is the identity for every cell in the shape.",
  ["inputs"], "all shapes", "Tests sample three shapes.", [B], [("mixed radix", B)], observe=["get_cell_superindex", "get_cell_index"])
p("N08", "Minimum distances follow the minimum-image convention",
  "On a lattice with periodic axes the minimum distance of two sites is the smallest over all combinations of the periodic translations.",
  ["inputs"], "all periodic lattices", "Tests sample two lattices.", [L], [("translation combinations", L)], observe=["minimum_distances"])
p("N09", "Dispersion paths join their points with evenly spaced sections",
  "A built path visits every configured point in order with the requested number of points per section, and ticks and scales match the section lengths.",
  ["inputs"], "all paths", "No tests.", ["lattpy/disptools.py"], [("linspace sections", "lattpy/disptools.py")], observe=["DispersionPath.build"])
p("N10", "Smallest-dtype and lookup helpers lose no value",
  "The chosen integer type can hold every given value and the lookup table maps every entry back to its value.",
  ["inputs"], "all arrays", "Tests sample small arrays.", [U], [("min_scalar_type", U)], observe=["min_dtype", "create_lookup_table"])
p("N11", "Drawing shows exactly the sites and links of the lattice",
  "Plots of a lattice contain one marker per site and one line per link.",
  ["inputs"], "all lattices", "No tests of plotting.", ["lattpy/plotting.py", L], [("draw helpers", "lattpy/plotting.py")], observe=["plot"])

with open(os.path.join(HERE, "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
