"""Writes properties.jsonl (the text of the properties lives here)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=["src/pyscal/" + f for f in files],
                          mechanism=[dict(name=n, where="src/pyscal/" + w) for n, w in mech],
                          state=[dict(name=n, meaning=m, where="src/pyscal/" + w) for n, m, w in (state or [])],
                          observe_at=observe or [], hook_needed=None))
    P.append(d)


prop("C01", "Cutoff neighbors are exactly the periodic images closer than the cutoff",
     "For every structure, box shape and cutoff below half the smallest box height (after the automatic replication of small systems), the neighbors of every atom are exactly the atoms whose nearest periodic image is closer than the cutoff, and the reported distances and displacement vectors are the minimum image ones. The result does not depend on the size of the system, on which internal search algorithm is used, on where in or outside the box the atoms are given, or on searches made before.",
     ["inputs", "configurations", "histories"],
     "all structures x box shapes (orthogonal, triclinic, rotated, left handed, thin) x system sizes (replicated, plain, cell lists) x cutoffs x orders of searches",
     "tests check the number of neighbors of a few perfect crystals with one cutoff; never vectors, displaced atoms, thin boxes, tilted large systems or repeated searches",
     ["system.cpp", "core.py"],
     [("get_all_neighbors_normal / get_all_neighbors_cells", "system.cpp"), ("get_abs_distance", "system.cpp"), ("set_up_cells", "system.cpp"), ("atoms setter, repeat", "core.py")],
     [("neighbors, neighbordist, n_diffx", "neighbor lists of an atom", "atom.h")], ["Atom.neighbors", "Atom.neighbor_distance", "Atom.neighbor_vector"])
prop("C02", "Adaptive and fixed-number neighbor searches match their definitions",
     "The adaptive method returns, for every atom, exactly the atoms closer than padding times the mean distance of its nlimit closest atoms, and the number method exactly its nmax closest atoms; the cutoff reported for each atom is that distance. A search radius (threshold) too small to decide this raises an error and never yields incomplete lists; any sufficient radius gives the same answer.",
     ["inputs", "configurations", "histories"],
     "all structures x nlimit, padding, nmax, threshold x histories of searches",
     "tests use perfect crystals with the default parameters, where wrong sorting, wrong averages, or truncated candidate lists are invisible",
     ["system.cpp", "core.py"], [("get_all_neighbors_adaptive", "system.cpp"), ("get_all_neighbors_bynumber", "system.cpp"), ("get_temp_neighbors_brute / _cells", "system.cpp")],
     [("temp_neighbors", "candidates sorted by distance", "atom.h")], ["Atom.neighbors", "Atom.cutoff"])
prop("C03", "Type filters keep exactly the neighbors of the same or of another type",
     "With the filter for equal types (different types) the neighbors found by the cutoff and adaptive methods are exactly those unfiltered neighbors whose type equals (differs from) the type of the atom. This holds for every assignment of types, and a filter never influences a later search made without it.",
     ["inputs", "histories"], "all type assignments x structures x methods x orders of filtered and unfiltered searches",
     "tests check one two-type crystal with one filter in one order", ["system.cpp", "core.py"],
     [("filter handling in each neighbor routine", "system.cpp"), ("find_neighbors", "core.py")], [("filter", "active filter of the system", "system.h")], ["Atom.neighbors"])
prop("C04", "SANN neighbors are the solid-angle nearest neighbors",
     "The parameter free neighbor search returns for each atom the smallest set of m >= 3 closest atoms for which the sum of their distances divided by m-2 does not exceed the distance of the next atom. The result is independent of the initial search radius.",
     ["inputs", "configurations"], "all structures x search radii",
     "tests compare the average order parameter of one noisy crystal within a few percent", ["system.cpp", "core.py"],
     [("get_all_neighbors_sann", "system.cpp"), ("threshold retry loop in find_neighbors", "core.py")], None, ["Atom.neighbors"])
prop("C05", "Voronoi cells partition the periodic box",
     "Voronoi neighbors are exactly the atoms (images) whose cells share a face with the cell of the atom; the cell volumes, face weights (area to the chosen power, normalised to one), face perimeters, vertices and their numbers are those of the true periodic Voronoi tessellation. Volumes add up to the volume of the box, and neighbor relations and face areas are reciprocal.",
     ["inputs", "configurations", "histories"], "all structures and box shapes, including triclinic boxes and systems of a few atoms, x weight exponents x repeated calculations",
     "tests check volumes of perfect cubic crystals, where each cell is the same", ["system.cpp", "core.py", "atom.cpp"],
     [("get_all_neighbors_voronoi", "system.cpp"), ("embed_in_cubic_box, repeat", "core.py"), ("find_average_volume", "system.cpp")], None,
     ["Atom.volume", "Atom.avg_volume", "Atom.neighbor_weights", "Atom.face_vertices", "Atom.face_perimeters", "Atom.vertex_vectors"])
prop("C06", "Steinhardt parameters follow their definition for any neighborhood",
     "For every l from 2 to 12 the components and the magnitude of the bond orientational parameters equal their definition over the current neighbors and weights, and the averaged versions equal the definition over the atom and its neighbors. If a condition is given, only neighbors with the same value of the condition as the atom enter, and the request for several parameters at once, or in any order, gives the same numbers.",
     ["inputs", "configurations", "histories"], "all structures x neighbor methods x l x conditions x order of requests",
     "tests compare a few values of q4, q6 of perfect crystals to two digits; components, odd l, general neighborhoods and conditions are not covered", ["system.cpp", "core.py", "atom.cpp"],
     [("calculate_q, calculate_aq", "system.cpp"), ("QLM, YLM, PLM", "system.cpp"), ("calculate_q", "core.py")],
     [("realq, imgq, arealq, aimgq, q, aq", "stored components and magnitudes", "atom.h")], ["System.get_qvals", "Atom.get_q", "Atom.get_qlm"])
prop("C07", "Descriptors do not depend on how the same structure is represented",
     "Every per-atom structural descriptor is unchanged when the same physical structure is given with translated, wrapped or unwrapped atoms, in another order of the atoms, in a rotated frame, with another choice of box vectors of the same lattice, or replicated into a larger cell. Values of replicated atoms equal those of the original atom.",
     ["inputs", "configurations"], "all structures x representations x descriptors",
     "no test compares two representations of the same structure except the number of neighbors", ["system.cpp", "core.py", "atom.cpp"],
     [("minimum image convention", "system.cpp"), ("ghost replication", "core.py")], None, ["all Atom descriptors"])
prop("C08", "Solid atoms are classified by bonds exactly as defined",
     "An atom is solid exactly if the number (integer argument) or fraction (float argument) of its neighbors with normalised bond overlap above the threshold exceeds the requested bonds and its mean overlap exceeds the average threshold, with the comparisons of the overlaps reversed if asked for. The stored overlaps and counts are those of the current neighbors and the requested l.",
     ["inputs", "configurations", "histories"], "all structures x neighbor methods x bonds, threshold, avgthreshold, l, direction x earlier classifications",
     "tests check the size of the largest cluster of a perfect crystal for default parameters", ["system.cpp", "core.py"],
     [("calculate_frenkel_numbers, find_solid_atoms, get_number_from_bond", "system.cpp"), ("find_solids", "core.py")], None,
     ["Atom.solid", "Atom.sij", "Atom.avg_sij", "Atom.bonds"])
prop("C09", "Clusters are the connected components of the neighbor graph",
     "After clustering, two atoms that fulfil the condition carry the same cluster id exactly if they are connected through neighbors that fulfil the condition (across periodic boundaries too, and within the optional separate cutoff), and all others carry none. The returned size is the size of the largest such component, its atoms and only they are marked as the largest cluster.",
     ["inputs", "histories"], "all subsets of atoms that fulfil the condition x structures x neighbor methods x cutoffs x earlier clusterings",
     "tests cluster one crystal with all or half of the atoms; they never check the membership", ["system.cpp", "core.py"],
     [("find_clusters_recursive, harvest_cluster", "system.cpp"), ("largest_cluster, get_largest_cluster_atoms", "system.cpp"), ("cluster_atoms", "core.py")],
     [("belongsto, lcluster, maxclusterid", "cluster id and membership of the largest cluster", "atom.h")], ["Atom.cluster", "Atom.largest_cluster", "return value"])
prop("C10", "Common neighbor analysis assigns structures by the bond signatures",
     "The structure assigned to each atom by the (adaptive or conventional) common neighbor analysis is the one determined by the signatures (common neighbors, bonds, longest chain) of its 12 or 14 closest atoms, and likewise for the identification of cubic and hexagonal diamond and their first and second neighbors. The returned counts are those of the assigned structures and add up to the number of atoms.",
     ["inputs", "configurations", "histories"], "all structures (perfect, displaced, with defects and interfaces, any box) x adaptive or conventional x earlier calculations",
     "tests check perfect crystals for which every atom has the same structure", ["system.cpp", "core.py"],
     [("calculate_cna, get_acna_neighbors, get_cna_neighbors, identify_cn12 / cn14", "system.cpp"), ("identify_diamond_structure, get_diamond_neighbors", "system.cpp"), ("calculate_cna, identify_diamond", "core.py")],
     None, ["Atom.structure", "return value"])
prop("C11", "Centrosymmetry is the sum over the best opposite pairs",
     "For every even number of neighbors the centrosymmetry parameter of each atom is the sum of the nmax/2 smallest values of the squared length of the sum of two neighbor vectors, over all pairs of its nmax closest atoms. It is zero exactly where the environment has inversion symmetry.",
     ["inputs", "configurations", "histories"], "all structures x even nmax x earlier calculations",
     "the test checks that perfect crystals give zero", ["system.cpp", "core.py"], [("calculate_centrosymmetry_atom", "system.cpp"), ("calculate_centrosymmetry", "core.py")], None,
     ["Atom.centrosymmetry", "return value"])
prop("C12", "The disorder parameter follows its definition",
     "The disorder of an atom is the mean over its current neighbors of the self overlaps minus twice the cross overlap of the normalised order parameter of the requested l, and the averaged version is the mean over the atom and its neighbors. It is zero where all neighborhoods are equal.",
     ["inputs", "configurations", "histories"], "all structures x neighbor methods x l", "the test checks one perfect crystal, where the value is zero whatever atoms are used",
     ["system.cpp", "core.py"], [("calculate_disorder, find_average_disorder", "system.cpp")], None, ["Atom.disorder", "Atom.avg_disorder"])
prop("C13", "The entropy fingerprint follows its definition",
     "The local entropy of an atom equals the pair entropy integral over its neighbors with the given broadening, range and (global or local) density, up to the error of the integration step, and the averaged versions are the (switching function weighted) means over the atom and its neighbors. Repeating the calculation gives the same values.",
     ["inputs", "configurations", "histories"], "all structures x sigma, range, step, local density, averaging modes", "tests compare one averaged value of one crystal",
     ["atom.cpp", "system.cpp", "core.py"], [("Atom::gmr, Atom::entropy_integrand, Atom::trapezoid_integration", "atom.cpp"), ("entropy, average_entropy, average_entropy_switch", "system.cpp"), ("calculate_entropy", "core.py")], None,
     ["Atom.entropy", "Atom.avg_entropy"])
prop("C14", "Angular, chi and Voronoi face descriptors follow their definitions",
     "The angular criterion is the sum over the six angles between the four closest neighbors of the squared deviation of the cosine from -1/3; the chi parameters count the cosines between all pairs of neighbors in the published bins; the Voronoi vector counts faces by their number of edges after removal of faces and edges below the relative cutoffs. All are evaluated for every atom over its own current neighbors.",
     ["inputs", "configurations", "histories"], "all structures x neighbor methods x cutoffs", "tests check perfect crystals only",
     ["core.py"], [("calculate_angularcriteria", "core.py"), ("calculate_chiparams", "core.py"), ("calculate_vorovector", "core.py")], None, ["Atom.angular", "Atom.chiparams", "Atom.vorovector", "Atom.edge_lengths"])
prop("C15", "Short range order parameters follow their definitions",
     "The Cowley and the pairwise multicomponent short range order of each atom of the reference type equal the published formulas over the atoms in its first and second shell (split at the mean neighbor distance) and the concentrations of the whole system; the returned values are the means over all atoms of the reference type. The concentrations reported for the types are in proportion to their atoms. This holds for every assignment of types, including types that are not numbered consecutively and systems of a few atoms.",
     ["inputs", "configurations"], "all type assignments x structures x reference and compared types x shells", "tests use one ordered crystal", ["core.py"],
     [("calculate_sro, calculate_pmsro, get_concentration", "core.py")], None, ["Atom.sro", "return value"])
prop("C16", "The radial distribution function counts every pair once",
     "The pair distances are the minimum image distances of all pairs of atoms of the (replicated) cell, each pair once (in triclinic cells this is promised for distances below half of the smallest height of the cell); the radial distribution function is their histogram divided by the volume of each shell and by the density of pairs, for any number of bins and any range. It integrates to the number of neighbors and does not depend on the box shape or the order of atoms.",
     ["inputs", "configurations"], "all structures and boxes x histogram parameters", "the test looks for the position of the first peak", ["core.py", "system.cpp"],
     [("get_pairdistances", "system.cpp"), ("calculate_rdf", "core.py")], None, ["calculate_rdf", "get_pairdistances"])
prop("C17", "Results depend on the current structure and arguments, not on earlier calls",
     "After any sequence of calculations on a system, including failed ones, a further calculation gives the same result as on a fresh system with the same structure and the neighbors it needs. Repeating a calculation does not change its result.",
     ["histories"], "all sequences of analysis calls up to a bounded length x structures", "each test runs one or two calculations on a new system", ["system.cpp", "core.py", "atom.cpp"],
     [("reset_all_neighbors, reset_main_neighbors", "system.cpp"), ("find_neighbors", "core.py")], [("voronoiused, filter, usecells, solidq, criteria, neighbordistance", "settings that persist between calls", "system.h")], ["all Atom descriptors"])
prop("C18", "Calculations do not alter the structure",
     "No analysis call, whether it succeeds or fails, changes the box, the number, order, positions, types or ids of the atoms or the custom values the user stored on them, other than the documented results. Systems of a few atoms keep reporting only the atoms the user gave.",
     ["histories", "inputs"], "all analysis calls and sequences of them x structures", "no test looks at positions or box after a calculation", ["core.py", "system.cpp"],
     [("_update_atoms, set_atoms", "core.py"), ("box handling in the voronoi method", "core.py")], None, ["System.box", "System.atoms", "System.natoms"])
prop("C19", "A system stores atoms like an indexed register",
     "Reading an atom returns exactly what was last stored at that index, writing an atom changes that atom only, adding atoms appends them, and every attribute a user can set survives storing and reading (distances and vectors of neighbors follow from the neighbors). Indices outside the range are refused, and the following calculations see the changed atoms, in small replicated systems too.",
     ["histories"], "all sequences of set, get, add, assign and box changes up to a bounded length x system sizes", "tests set one atom once", ["core.py", "system.cpp", "atom_binding.cpp"],
     [("set_atom, get_atom, add_atoms, atoms setter, box setter", "core.py"), ("set_atoms, add_atoms, satom, gatom", "system.cpp")],
     [("atoms, real_nop, ghost_nop", "atom storage", "system.h")], ["System.get_atom", "System.atoms", "System.iter_atoms"])
prop("C20", "Box operations preserve the crystal",
     "The distance of two atoms is the minimum image distance in the box of the user, with the vector pointing along it; remapping moves atoms by box vectors into the box; repeating the cell and extracting a cubic cell produce the same periodic crystal, with the number of atoms, types and density to match. This holds for orthogonal and triclinic boxes of any orientation and for systems of any size.",
     ["inputs", "configurations", "histories"], "all boxes and positions x repetitions x orders of operations", "tests check one orthogonal distance and one extraction", ["core.py", "system.cpp"],
     [("get_distance, remap_atoms, repeat, extract_cubic_box", "core.py"), ("get_abs_distance, remap_atom", "system.cpp")], None, ["get_distance", "remap_atoms", "repeat", "extract_cubic_box"])
prop("C21", "Created crystals are the named crystals",
     "For every structure, lattice constant and repetition, the created atoms are a full periodic crystal of the named structure: the right number of atoms inside the box, unique ids, the right types, the published coordination shells for every atom, and no overlap across the boundary. Noise displaces atoms but changes nothing else.",
     ["inputs", "configurations"], "all structures x repetitions (also unequal) x lattice constants x c/a", "tests count atoms for equal repetitions", ["crystal_structures.py"],
     [("make_crystal", "crystal_structures.py")], None, ["make_crystal"])
prop("C22", "Writing and reading a structure returns the same structure",
     "A system written to any supported file format or converted to an ASE object and read back has the same box up to a rotation, atoms, types and positions within the precision of the format, the same custom columns and the same species. This includes triclinic boxes, compressed files, scaled coordinates, arbitrary column orders and box origins, and writing never changes the system.",
     ["inputs", "configurations"], "all structures x box shapes x formats x column layouts x options", "tests check that files exist or count atoms", ["formats/lammps.py", "formats/vasp.py", "formats/ase.py", "traj_process.py", "core.py"],
     [("read_snap, write_snap", "formats/lammps.py"), ("convert_snap, read_snap", "formats/ase.py"), ("write_snap, write_poscar", "formats/vasp.py"), ("read_file, write_file", "traj_process.py")], None,
     ["System.to_file", "System.read_inputfile", "System.to_ase"])
prop("C23", "A trajectory behaves as the list of its frames",
     "Every way of accessing frames (index, negative index, slice, sum of slices, iteration in any direction) returns the data of exactly those frames in that order, in each output form; loading, modifying, unloading and writing frames affects only those frames, and files that are written contain the current data of the selected frames. Accessing frames never changes other slices or the file.",
     ["histories", "inputs"], "all sequences of load, modify, unload, slice, add, convert, write up to a bounded length", "tests load one frame and slice once", ["trajectory.py"],
     [("Trajectory.get_block, load, unload, __getitem__, iter", "trajectory.py"), ("Timeslice.__add__, to_dict, to_system, to_ase, to_file", "trajectory.py")],
     [("loadlist, data, line_offset", "loaded blocks and positions in the file", "trajectory.py")], ["Timeslice.to_system", "Timeslice.to_dict", "Timeslice.to_file"])
prop("C24", "A truncated trajectory yields exactly its complete frames",
     "If writing a trajectory file was interrupted at any byte, opening it gives exactly the frames that are complete in the file, each with the data originally written, and no partial frame is returned as if it was complete; splitting the file into single frames does the same. Frames past the end are refused.",
     ["crash_points", "inputs"], "all byte positions at which the file can end x frame sizes x formats of the atom lines", "no test reads an incomplete file", ["trajectory.py", "formats/lammps.py", "traj_process.py"],
     [("_get_nblocks, get_block", "trajectory.py"), ("split_snaps", "formats/lammps.py")], None, ["Trajectory.nblocks", "Trajectory.get_block", "split_trajectory"])
prop("C25", "Invalid requests are refused and leave the system usable",
     "Arguments outside their documented range, unknown names, unreadable files, searches that find more neighbors than an atom can hold (300), and requests for solids or short range order without neighbors raise an error, and the valid boundary values are accepted. After a refused request the structure is unchanged and any later valid calculation gives the same result as if the request had not been made (a refused neighbor search may discard the earlier neighbors).",
     ["inputs", "histories", "fault_sequences"], "all argument positions x invalid and boundary values, each followed by valid calculations", "tests check five error cases, never the state afterwards", ["core.py", "traj_process.py", "crystal_structures.py"],
     [("argument checks", "core.py"), ("find_neighbors state handling", "core.py")], [("neighbors_found", "whether a search succeeded", "core.py")], ["exceptions"])

prop("C26", "Reports on Voronoi volumes and interstitial sites describe the atoms they name",
     "For every structure file, compare_atomic_env lists exactly the distinct Voronoi volumes of the atoms of the requested type (rounded to the requested precision) with their number, each with the Voronoi fingerprint of the atoms that have this volume; find_tetrahedral_voids lists exactly the atoms with four four-sided Voronoi faces whose smallest neighbor distance occurs exactly four times within the relative precision, with their own position (direct or cartesian), type and volume. This holds for boxes of any shape and for small boxes, and what is printed is what is returned.",
     ["inputs", "configurations"], "all structures with foreign atoms on different sites x sizes x box shapes x file formats x precisions x types x forms of output", "no test runs these functions on more than one file; the values are never compared", ["misc.py"],
     [("compare_atomic_env", "misc.py"), ("find_tetrahedral_voids", "misc.py")], None, ["compare_atomic_env", "find_tetrahedral_voids"])
prop("C27", "Energies of atoms are those of the calculator, and their averages",
     "calculate_energy gives the calculator a structure with the positions, box and species (type k is the k-th species, whatever is found first in the system) of the system, and assigns to every atom the energy that the calculator computed for this atom, whatever order the calculator reports them in; the averaged energy of an atom is the mean over the atom and its neighbors. Nothing else in the system changes.",
     ["inputs", "configurations", "histories"], "all structures x orders of types and species x ids x earlier calls x averaging", "the tests cannot call LAMMPS, so the function is never executed", ["core.py", "traj_process.py"],
     [("calculate_energy", "core.py"), ("write_file (lammps-data)", "traj_process.py")], None, ["Atom.energy", "Atom.avg_energy"])
prop("C28", "The picture of a system shows its atoms and its box",
     "For every system, show() draws exactly the selected atoms at their positions inside the drawn box, each with the colour of its own value of the chosen property, and the edges of the drawn box are those of the simulation box, however often the picture is drawn and whatever was selected before. Drawing changes nothing in the system.",
     ["inputs", "configurations", "histories"], "all structures and box shapes x colourings x selections x sequences of redrawing", "tests check that a widget is returned", ["visualization.py", "core.py"],
     [("plot_system, plot_3d, create_box_plot", "visualization.py"), ("show", "core.py")], None, ["System.show", "plotly figures"])


if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
