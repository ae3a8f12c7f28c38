#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from the one table below (a development tool; no check uses it)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPP, PY, ATOM = "src/pyscal/system.cpp", "src/pyscal/core.py", "src/pyscal/atom.cpp"


def P(id, title, statement, over, text, why, files, mech, tech, note):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                tech=tech, note=note)


T = [
P("C01", "Fixed-cutoff neighbor lists are exactly the periodic atoms within the cutoff",
  "For every periodic configuration in which the cutoff is below half the smallest perpendicular width of the (automatically "
  "replicated, when fewer than 200 atoms) cell, find_neighbors(method='cutoff', cutoff=r) gives every atom exactly the atoms and "
  "periodic images closer than r, other than itself, each once, with neighbor_distance and neighbor_vector describing that image. "
  "Filters 'type' and 'type_r' keep exactly the neighbors of equal or different type, and coordination is the number of neighbors.",
  ["inputs", "configurations"], "all cells (orthogonal, thin, tilted, rotated, left-handed), atom positions inside, on and outside the cell, sizes on both sides of every algorithm switch (200, 2300), types, filters and cutoffs",
  "Tests compare a handful of perfect crystals and one fixed data file; the switch to cell lists, tilted cells and atoms outside the cell are barely sampled.",
  [CPP, PY], [("get_all_neighbors_normal", CPP), ("get_all_neighbors_cells", CPP), ("find_neighbors", PY)],
  "online monitor of every neighbor list against an independent explicit-image reference",
  "Every list of every atom in the generated runs is compared with a k-d tree over explicit images; cutoffs are placed in gaps of the distance spectrum so ties cannot raise false alarms."),
P("C02", "Distances are minimum-image distances, invariant under lattice translations",
  "For any two atoms in any cell (of systems of fewer than 200 atoms: in the replicated cell which calculations use), get_distance is symmetric, non-negative, "
  "unchanged when either atom moves by vectors of that cell, and, below half its smallest perpendicular width, equals the length of the shortest image separation, whose vector is returned with vector=True. "
  "Remapping a point into the cell moves it by lattice vectors only, into the cell.",
  ["inputs"], "all cells, all pairs of positions including several cells apart",
  "Tests check two or three pairs in cubic boxes.",
  [CPP, PY], [("get_abs_distance", CPP), ("remap_atom", CPP), ("get_distance", PY)],
  "online monitor of distance calls against an exact minimum-image reference and metamorphic shifts",
  "Exact reference by exhaustive image search; sampled pairs."),
P("C03", "Adaptive, SANN and nearest-number methods select the neighbors they define",
  "The adaptive method gives each atom the atoms within padding times the mean distance of its nlimit nearest atoms; SANN gives the smallest m>=3 nearest atoms for which "
  "the sum of their distances divided by (m-2) does not exceed the distance of the next one; the number method gives exactly the nmax nearest (that pass the filter). "
  "A search that cannot be completed with the given threshold raises an error instead of giving shorter lists.",
  ["inputs", "configurations"], "all cells, sizes, parameters, filters and densities, including sizes that use cell lists (over 4000 atoms)",
  "Tests check coordination of perfect bcc/fcc only.",
  [CPP, PY], [("get_all_neighbors_adaptive", CPP), ("get_all_neighbors_sann", CPP), ("get_all_neighbors_bynumber", CPP)],
  "online monitor of every neighbor list against the definitions evaluated on sorted reference distances",
  "One recorded finding (SANN leaves out the fourth nearest neighbor, pinned by the stable tests) is recognised exactly and anything else is a violation."),
P("C04", "Voronoi analysis describes the periodic Voronoi tessellation",
  "The Voronoi cell of every atom is its cell in the periodic tessellation: volumes are positive and add up to the cell volume, neighbors are the atoms sharing a face, weights follow the face areas to the power voroexp, "
  "faces, vertices, edges and the (n3,n4,n5,n6) vector describe that polyhedron, and the average volume is the mean over the atom and its neighbors.",
  ["inputs", "configurations"], "all cells, sizes, filters, exponents and cutoffs of small faces and edges",
  "Tests check three perfect lattices; triclinic, filtered and small cells are not covered.",
  [CPP, PY, "lib/voro++/voro++.cc"], [("get_all_neighbors_voronoi", CPP), ("calculate_vorovector", PY), ("find_average_volume", CPP)],
  "monitor comparing each Voronoi cell with a tessellation by qhull plus conservation of volume",
  "Independent tessellation by scipy/qhull of explicit images; generic positions (no degenerate vertices) for topology, all positions for volumes."),
P("C05", "A small cell and an explicit supercell of it give the same results",
  "Every per-atom quantity of a system does not depend on how many copies of the periodic cell are put into the system explicitly: a cell small enough to be replicated internally, "
  "and the same crystal given as an explicit supercell, agree atom by atom for neighbors, Steinhardt parameters, Voronoi quantities, CNA, centrosymmetry, disorder, solids, entropy and short range order.",
  ["inputs", "configurations"], "all cells and sizes on both sides of the internal replication threshold",
  "Tests never compare a system with a supercell of itself.",
  [PY, CPP], [("atoms setter and repeat", PY), ("ghost atoms", CPP)],
  "metamorphic monitor over pairs of executions (cell and explicit supercell)",
  "Compares two executions of the real code, so it needs no reference implementation; sampled configurations and parameters."),
P("C06", "Steinhardt parameters equal their definition for every neighborhood",
  "q_l and q_lm are the normalised norm and components of the weighted mean of spherical harmonics over the neighbors, averaged q_l uses the mean of q_lm over the atom and its neighbors, for every l from 2 to 12. "
  "A condition restricts both sums to neighbors whose condition equals that of the atom, and get_qvals and get_q return these values in atom order.",
  ["inputs", "histories"], "all neighborhoods, neighbor methods, weights, l, conditions, and sequences of calculate_q calls",
  "Tests compare a few values of perfect crystals to two digits; wrong signs, phases and weights are invisible there.",
  [CPP, PY, ATOM], [("calculate_q / calculate_aq", CPP), ("calculate_q", PY), ("get_q", ATOM)],
  "online monitor comparing every q_lm, q_l and averaged q_l with scipy spherical harmonics over the recorded neighbor vectors",
  "Reference uses scipy's spherical harmonics; complex components are compared up to one convention per run (phase and conjugation fixed by the first atom)."),
P("C07", "Structural quantities do not depend on origin, orientation, order or images",
  "Rigidly rotating or translating a configuration together with its cell, renumbering its atoms, replacing atoms by periodic images, choosing another set of lattice vectors for the same crystal, and scaling all lengths "
  "leave rotation-invariant per-atom quantities unchanged (up to the renumbering, and with lengths scaled).",
  ["inputs", "configurations"], "all configurations, rotations, translations, permutations, images, unimodular changes of cell and scales",
  "Tests never transform an input.",
  [CPP, PY], [("get_abs_distance", CPP), ("calculate_q", CPP), ("triclinic handling", PY)],
  "metamorphic monitor over pairs of executions of the real code",
  "No reference needed; quantities with thresholds are compared only away from the thresholds."),
P("C08", "Solid atoms are those whose normalised bond correlations pass the thresholds",
  "find_solids counts for each atom the neighbors whose normalised complex correlation s_ij with it passes threshold, averages s_ij over its neighbors, and marks it solid exactly when the count (or fraction) passes bonds and the mean passes avgthreshold, "
  "with '<' instead of '>' for the correlations when right=False. The returned number is the size of the largest cluster of solid atoms.",
  ["inputs", "configurations"], "all configurations, thresholds, integer and fractional bonds, l values, directions of comparison and cutoffs",
  "Tests check perfect bcc and one nucleus.",
  [CPP, PY], [("calculate_frenkel_numbers", CPP), ("find_solid_atoms", CPP), ("find_solids", PY)],
  "online monitor recomputing bond correlations, solidity and clusters from the recorded q components",
  "Values closer than 1e-6 to a threshold are skipped."),
P("C09", "Clusters are the connected components of the bonded graph of selected atoms",
  "After cluster_atoms(condition, cutoff) two atoms have the same cluster id exactly when they are connected through neighbors that satisfy the condition and lie within the cutoff; atoms that do not satisfy it belong to none. "
  "The returned number is the size of the largest component, whose atoms, and only those, are flagged, and atoms of any size of system are handled.",
  ["inputs", "histories"], "all graphs including clusters across periodic boundaries, chains of thousands of atoms, conditions by callable, attribute, custom key and q value, and repeated calls",
  "Tests check one nucleus and one bcc crystal.",
  [CPP, PY], [("cfind_clusters_recursive / harvest_cluster", CPP), ("cluster_atoms", PY)],
  "offline checker comparing the recorded partition with union-find over the recorded neighbor lists",
  "Symmetric neighbor lists (cutoff method), bonds away from the cutoff."),
P("C10", "Disorder and its average equal their definition",
  "calculate_disorder gives every atom the mean over its neighbors of S_jj + S_kk - 2 S_jk with normalised q_l vectors, zero in a perfect lattice, and the averaged variant is the mean over the atom and its neighbors, for every l.",
  ["inputs"], "all configurations, neighbor methods and l",
  "Tests check one perfect crystal, for which it is zero whatever neighbors are used.",
  [CPP, PY], [("calculate_disorder / find_average_disorder", CPP)],
  "online monitor recomputing disorder from recorded neighbors and reference spherical harmonics", "Sampled configurations; absolute tolerance 1e-6."),
P("C11", "Common neighbor analysis assigns structures by the bond signatures of each atom",
  "calculate_cna and identify_diamond assign to each atom the structure given by the common-neighbor signatures of its environment (fcc 12x421, hcp 6x421+6x422, bcc 8x666+6x444, icosahedral 12x555; cubic and hexagonal diamond through second neighbors, and their first and second neighbors), and the returned counts add up to the number of atoms and match the per-atom structures.",
  ["inputs", "configurations"], "perfect, strained, defective and disordered crystals, polytypes, all cells, and previous neighbor searches",
  "Tests check perfect fcc, bcc, hcp and diamond.",
  [CPP, PY], [("get_cna_neighbors / identify_cn", CPP), ("identify_diamond_structure", CPP)],
  "online monitor recomputing signatures for every atom with an independent implementation",
  "Independent bond-signature implementation on reference distances; atoms whose neighborhoods are tied at the decision distance are skipped."),
P("C12", "The centrosymmetry parameter is the sum of the nmax/2 smallest pair sums",
  "calculate_centrosymmetry(nmax) gives every atom the sum of the nmax/2 smallest |r_j + r_k|^2 over pairs of its nmax nearest neighbors, zero in a perfect centrosymmetric lattice, in atom order, whatever neighbor search ran before.",
  ["inputs", "histories"], "all configurations, even nmax and preceding neighbor searches", "Tests check two perfect lattices.",
  [CPP, PY], [("calculate_centrosymmetry", CPP)], "online monitor recomputing the sums from explicit images", "Skips atoms whose nmax-th and next neighbor are tied."),
P("C13", "The pair entropy parameter equals the documented integral",
  "calculate_entropy gives every atom -rho times the integral of (g ln g - g + 1) r^2 over the sampled radii, with g the Gaussian-broadened radial distribution of its neighbors, with the global or the local density, "
  "and its averaged variant is the mean over the atom and its neighbors, weighted with the switching function at their distances when that is asked for.",
  ["inputs", "configurations"], "all configurations, cutoffs, widths, grids, local densities and averaging modes", "Tests check one crystal at one set of parameters.",
  [CPP, PY, ATOM], [("entropy", CPP), ("calculate_entropy", PY)], "online monitor integrating the documented expression over recorded neighbor distances",
  "The documented trapezoidal rule is evaluated exactly, except for an incomplete last step. One recorded finding: the last but one point of the grid is left out (pinned by a stable test)."),
P("C14", "Angular criterion and chi parameters are exact functions of the bond angles",
  "The angular criterion of an atom is the sum of (cos+1/3)^2 over the six pairs of its four nearest neighbors, and the chi parameters are the histogram, in the documented bins, of the cosines of all pairs of its neighbors, which add up to all pairs and are returned with angles=True.",
  ["inputs"], "all neighborhoods and neighbor methods", "Tests check perfect diamond and bcc.",
  [PY], [("calculate_angularcriteria", PY), ("calculate_chiparams", PY)], "online monitor recomputing angles from recorded neighbor vectors",
  "One recorded finding: exactly opposite neighbors whose cosine rounds below -1 are lost from the histogram (pinned by a stable test)."),
P("C15", "Short range order parameters follow the Warren-Cowley definitions",
  "calculate_sro and calculate_pmsro give each reference atom the documented function of the fractions of types among its first- and second-shell neighbors and of the overall concentrations, for one or two shells separated at the mean distance of its neighbors, and return their mean over all reference atoms; calculate_sro treats binary systems of types 1 and 2, calculate_pmsro any number of types.",
  ["inputs", "configurations"], "all alloys, including three and more components, type labels, shells and small cells", "Tests check a few ordered alloys.",
  [PY], [("calculate_sro", PY), ("calculate_pmsro", PY)], "online monitor recomputing the parameters from explicit images", "Atoms whose shells would be empty are skipped."),
P("C16", "The radial distribution function is the normalised histogram of pair distances",
  "calculate_rdf histograms every pair distance once over the requested range, in bins of equal width starting at histomin, and divides by shell volume and pair density, so that an ideal gas gives one within the valid range and counts are conserved.",
  ["inputs"], "all configurations, bin counts and ranges", "Tests check the position of the first peak of bcc.",
  [PY, CPP], [("calculate_rdf", PY), ("get_pairdistances", CPP)], "online monitor recomputing the histogram from an independent list of pair distances", "Bins with a pair distance within 1e-9 of an edge are compared jointly."),
P("C17", "Generated crystals are the requested lattices",
  "make_crystal returns, for every structure, lattice constant, repetition, noise and element assignment, a periodic crystal with the right number of atoms, density, box, types, unique ids, and coordination shells of that lattice; with noise, deviations have that scale and the lattice stays the same.",
  ["inputs"], "all structures (including ordered alloys), repetitions in three directions, lattice constants, c/a ratios and noise", "Tests count atoms of a few structures.",
  ["src/pyscal/crystal_structures.py"], [("make_crystal", "src/pyscal/crystal_structures.py")], "monitor comparing shells and symmetry of generated crystals with textbook values", "Shell tables written from crystallography."),
P("C18", "LAMMPS dump files written and read back preserve the system",
  "Writing a system as a LAMMPS dump and reading it back preserves, in order, ids, types, custom columns, the cell and all periodic distances, whether compressed or not and for tilted or rotated cells; reading any valid dump (any column order, scaled or unscaled coordinates, any box bounds, extra columns) gives the configuration it describes.",
  ["inputs"], "all cells, column layouts, coordinate kinds, box origins, and compression", "Tests read a few files with one layout.",
  ["src/pyscal/formats/lammps.py", "src/pyscal/traj_process.py"], [("read_snap", "src/pyscal/formats/lammps.py"), ("write_snap", "src/pyscal/formats/lammps.py")],
  "round-trip monitor plus an independent dump writer", "Six printed decimals bound the tolerance."),
P("C19", "Conversion from and to ASE, POSCAR and LAMMPS data preserves the structure",
  "Converting ASE Atoms to a system and back, or a system to POSCAR / LAMMPS data files and back, preserves cell, positions modulo the cell, species and their order, and does not change the object converted; type numbers map consistently to species.",
  ["inputs"], "all cells, species lists, compressed and plain files", "Tests convert one or two crystals.",
  ["src/pyscal/formats/ase.py", "src/pyscal/formats/vasp.py", "src/pyscal/formats/mdtraj.py", "src/pyscal/traj_process.py"], [("read_snap / convert_snap", "src/pyscal/formats/ase.py")],
  "round-trip monitor with ASE as an independent reader and writer", "mdtraj objects are built in memory."),
P("C20", "A Trajectory gives back every block of the file, unchanged unless modified",
  "For any multi-block dump, indexing, slicing, iteration and addition of a Trajectory select exactly those blocks in that order, loading, to_system and to_ase describe the block's atoms and cell, and to_file writes them so that reading gives the same blocks, with modifications of loaded data and only those; indices outside raise IndexError, and an incomplete block at the end of the file is not a block.",
  ["inputs", "histories"], "all files (block counts, boxes, columns) and sequences of operations", "Tests use one file and few operations.",
  ["src/pyscal/trajectory.py", "src/pyscal/traj_process.py"], [("Trajectory / Timeslice", "src/pyscal/trajectory.py")],
  "model-based monitor: random operation histories against a list-of-blocks model", "Constant number of atoms per block, as the class assumes."),
P("C21", "Results do not depend on what was computed before",
  "Any calculation on a system that has already been used for other calculations (other neighbor methods, quantities, cells or atoms) gives the same per-atom results as the same calculation on a fresh system with the same cell, atoms and neighbor search.",
  ["histories"], "all sequences of public calls, including repeated searches with other methods, replaced atoms and boxes, and failed calls", "Tests run one sequence per fresh system.",
  [PY, CPP, ATOM], [("reset_allneighbors", CPP), ("atoms and box setters", PY)],
  "differential monitor: random call histories against fresh executions", "Compares executions of the real code bit for bit or to 1e-9."),
P("C22", "Systems store and return exactly the atoms and boxes they are given",
  "What is put into a System (box, atoms, add_atoms, set_atom, custom data) is what is read back, in order and with nothing added or lost, repeat and remap_atoms produce exactly the repeated or wrapped atoms, and Atom attributes hold the values assigned to them independently of each other and of copies.",
  ["histories", "inputs"], "all sequences of container operations, sizes on both sides of the replication threshold, and all attributes", "Tests set and read back a few attributes.",
  [PY, CPP, ATOM], [("atoms, add_atoms, set_atom, repeat, remap_atoms", PY)],
  "model-based monitor: random operation histories against a plain Python model", "Documented public operations; the dictionary of custom values of an atom is held by reference."),
P("C23", "No operation reads or writes outside its memory or has undefined behaviour",
  "No sequence of public calls with any arguments makes the library read or write memory that it does not own, use freed or uninitialised objects, overflow, or terminate the process; bad input raises a Python exception.",
  ["inputs", "histories"], "all workloads of the other properties plus hostile inputs", "Tests run without sanitizers on small friendly inputs.",
  [CPP, ATOM, "src/pyscal/atom_binding.cpp", "src/pyscal/system_binding.cpp", "lib/voro++/voro++.cc"], [("fixed neighbor arrays", "src/pyscal/atom.h")],
  "AddressSanitizer and UndefinedBehaviorSanitizer build of the extension under hostile and stress workloads", "gcc ASan+UBSan with checked libstdc++; covers executed paths only."),
P("C24", "The same input gives bit-for-bit the same output in every process",
  "Two runs of the same calls on the same input give identical results, in the same process or another one, whatever the contents of fresh memory, the hash seed and the random state.",
  ["inputs", "histories"], "all inputs and sequences of calls, contents of fresh memory", "Tests run once.",
  [CPP, ATOM, PY], [("constructors", ATOM)], "differential monitor over repeated executions with different fill patterns of fresh memory (MALLOC_PERTURB_)", "Fill patterns 0, 1, 85, 170, 254."),
P("C25", "Repeated work does not accumulate memory",
  "Repeating any calculation on the same or on new systems keeps the memory of the process bounded, and dropping a system releases what it used; memory of one system grows no faster than in proportion to its atoms and neighbors (calculate_rdf, which lists all pairs while it runs, apart).",
  ["histories"], "all repetition counts and calculations", "Tests run each calculation once.",
  [CPP, ATOM, PY], [("reset_allneighbors", CPP), ("Voronoi container", CPP)], "monitor of live allocations (a preloaded counting allocator), Python objects, file descriptors and peak memory over repeated executions", "Growth is judged on the second half of the repetitions."),
P("C26", "Invalid requests raise the documented error and change nothing",
  "A request outside the documented domain (l outside 2-12, thresholds outside 0-1, odd or non-positive nmax, unknown formats, missing files, solids before neighbors, malformed boxes and conditions) raises an exception of the documented type, and the system keeps its atoms, box and usability.",
  ["inputs", "histories"], "all invalid arguments before and after any valid calls", "Tests check a few messages.",
  [PY, "src/pyscal/traj_process.py", "src/pyscal/trajectory.py"], [("argument checks", PY)], "online monitor of exception types and of state before and after", "Documented argument domains."),
P("C27", "Void search and comparison of environments match the Voronoi tessellation",
  "find_tetrahedral_voids lists, in the order of the file and with their types, Voronoi volumes and Cartesian or direct positions, exactly the atoms whose Voronoi cell has four quadrilateral faces and which have exactly four neighbors within the relative precision of the nearest one; "
  "compare_atomic_env gives the distinct rounded Voronoi volumes of the atoms of a type with the number of atoms of each, and the distinct fingerprints, each with its volume when they correspond one to one; what is printed is what is returned.",
  ["inputs", "configurations"], "all crystals with interstitial atoms and disordered configurations, cells, sizes, file formats and options", "No stable test covers these functions.",
  ["src/pyscal/misc.py"], [("find_tetrahedral_voids", "src/pyscal/misc.py"), ("compare_atomic_env", "src/pyscal/misc.py")], "monitor of the lists returned and printed against an independent tessellation of the file", "Atoms within rounding of a threshold may or may not be listed."),
P("C28", "Systems are independent and per-atom energies go to the right atoms",
  "Operations on one system or on atoms taken from it never change another system or the atoms inside it, also when each is used by a thread of its own; calculate_energy gives the engine every atom with its position, type and cell, assigns each atom the value computed for it and the mean over the atom and its neighbors, and leaves no files behind and the system unchanged when the engine fails.",
  ["histories", "fault_sequences"], "all interleavings of calls on several systems, and failures of the energy engine at any step", "Tests never use two systems at once; the energy test is skipped without LAMMPS.",
  [PY, "src/pyscal/routines.py", CPP], [("calculate_energy", PY), ("get_energy_atom", "src/pyscal/routines.py")], "interleaved-history monitor against isolated executions, and a recording stand-in for the LAMMPS module with injected faults", "The stand-in implements the Python interface of lammps used by pyscal."),
P("C29", "Plots show each selected atom once, where it is and with its value",
  "plot_system and System.show render, however often, one marker for each atom that passes the filter (and no other), at its position remapped into the box that is drawn, coloured with the value of the chosen property of that same atom, together with the twelve edges of the simulation box; the system is not changed.",
  ["inputs", "configurations"], "all cells, sizes, placements, colourings and filters, and repeated rendering", "No test covers plotting.",
  ["src/pyscal/visualization.py", PY], [("plot_system, plot_3d, create_box_plot", "src/pyscal/visualization.py"), ("show", PY)], "monitor of the recorded figures against the atoms of the system", "The figures that would be shown are recorded; browsers and widgets are not run."),
P("C30", "Calculations change only their own results and never their arguments",
  "A calculation changes only the attributes it is documented to calculate: positions, ids, types, custom data, the cell, neighbors, parameters of other l and results of other calculations stay as they are; arguments, input files and atoms passed by the caller are not modified, the random state is not used, and custom data of one atom never appear at another.",
  ["inputs", "histories"], "all calculations after all histories, all containers and sizes", "Tests look at the result of a call, not at everything else.",
  [PY, CPP, ATOM, "src/pyscal/formats/lammps.py"], [("update_atoms after Python-side calculations", PY)],
  "frame monitor: every attribute of every atom compared before and after every call", "Allowed changes are grouped by the documentation of each calculation; results that an error leaves behind may be partial within the group."),
]


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(VERIF, "props")) if f.startswith("c") and f.endswith(".py")}
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as fh:
        for p in T:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "hook_needed": None}}) + "\n")
    checks = [{"property": p["id"],
               "quick_cmd": "/opt/venv/bin/python check.py %s --tier quick" % p["id"],
               "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % p["id"],
               "evidence_file": "evidence/%s.json" % p["id"],
               "technique": p["tech"], "level": "exploration", "level_note": p["note"]} for p in T if p["id"] in have]
    na = [{"property": p["id"], "reason": "its monitor is not written yet"} for p in T if p["id"] not in have]
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fh:
        json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -m vlib.build plain", "checks": checks,
                   "not_applicable": na,
                   "notes": "Runtime monitoring: check.py builds /repo's tree out of tree, runs seeded workloads in worker "
                            "processes and monitors every result. No hooks in /repo are needed."}, fh, indent=1)
        fh.write("\n")
    print(len(checks), "checks;", len(na), "not yet")


main()
