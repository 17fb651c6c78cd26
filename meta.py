#!/usr/bin/env python3
"""Single source of the property list: `python3 meta.py` regenerates properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))

GVN = ("gated global value numbering of the current source against a reference program "
       "(abstract interpretation of the syntax tree to normal-form value graphs)")
GVN_NOTE = ("Both the repository's function and an independently written reference are translated, path-sensitively and for all "
            "inputs at once, into hash-consed normal-form terms; identical normal forms discharge the obligation, a rigid mismatch "
            "(constant, column, guard, field, operator, order, formula) is a violation, anything the equational theory cannot settle is "
            "recorded as undecided and never reported. Trusted: the library models in engine/lib.py, real-number arithmetic for floats, "
            "and the reference programs in specs/. No code of the repository is executed.")

IO = "matersdk/io/pwmat/utils/"

CXX = "clang AST of the headers translated to value graphs (GVN); loops solved to closed forms for symbolic sizes, compared with reference value graphs; array accesses checked against allocated extents and lifetimes"
CXX_NOTE = "clang parses the current headers on every run; each function reachable from the drivers is translated and evaluated abstractly for symbolic sizes and inputs. Floating point is treated as exact arithmetic; a construct outside the translated subset makes the obligation undecided, never an alarm."

PROPS = [
    dict(id="C01", title="Element tables are exact inverses and agree with the periodic table",
         statement="For every atomic number 0..118 the package's number-to-symbol table yields the IUPAC symbol (0 is the vacancy marker), its symbol-to-number table yields that number back, and neither table has any further entry.",
         over=["inputs"], q="all 119 atomic numbers and all 119 symbols",
         why="Tests use Li, Si, Mo, S and a few more; a swapped or missing heavy element is never looked up.",
         files=[IO + "parameters.py"], mech=[("atomic_number2specie / specie2atomic_number", IO + "parameters.py")]),
    dict(id="C02", title="Every quantity is read from its own section, rows and columns",
         statement="For every atom.config file and every MOVEMENT frame, lattice vectors, atomic numbers, fractional coordinates, total energy, atomic forces, virial, atomic energies and magnetic moments are each taken from the section that declares them, one row per atom in file order, from the documented columns, with the documented sign, and with the documented fallback when the section is absent. No quantity is taken from another section, shifted by a row or column, or truncated.",
         over=["inputs"], q="every atom.config text and every MOVEMENT frame text, every atom count, every combination of optional sections",
         why="Tests print a few sample files; a shifted column or off-by-one section bound shows only for particular atom counts or optional sections.",
         files=[IO + "acextractor.py", IO + "lineLocator.py"],
         mech=[("ACExtractor / ACstrExtractor getters", IO + "acextractor.py"), ("LineLocator / ListLocator", IO + "lineLocator.py")]),
    dict(id="C03", title="Trajectory records stay frame-aligned, complete and consistently labelled",
         statement="For every MOVEMENT file, the frame sizes, frame boundaries and frame count partition the file into consecutive frames; the k-th entry of every array of the trajectory record comes from frame k, the single-frame record and the whole-trajectory record list the same quantities in the same order, and the labels name exactly those quantities. Optional quantities (virial, atomic energies, magnetic moments) appear exactly when the first frame has them.",
         over=["inputs", "histories"], q="every MOVEMENT file, every frame index, every combination of optional quantities",
         why="The stable tests read one trajectory with one combination of optional sections.",
         files=[IO + "mvextractor.py"], mech=[("MVExtractor", IO + "mvextractor.py")]),
    dict(id="C04", title="Structure files written and read preserve species, lattice and positions",
         statement="Reading a PWmat file builds a structure whose lattice, species and fractional coordinates are exactly what the file's sections hold, site by site. Writing one emits the site count, the three lattice vectors row by row, and one line per site in site order with that site's own atomic number and fractional coordinates, plus one magnetic line per site when asked; reading from a string behaves like reading the corresponding frame and rejects unknown formats.",
         over=["inputs"], q="every structure, every file content, every option",
         why="Tests write two sample structures and only check that nothing raises.",
         files=["matersdk/io/publicLayer/structure.py"], mech=[("DStructure.to / from_file / from_str", "matersdk/io/publicLayer/structure.py")]),
    dict(id="C05", title="Dataset export writes every frame exactly once, all arrays sliced alike",
         statement="Exporting a dataset with a part size writes consecutive, disjoint, ascending frame ranges that cover every frame exactly once, with no empty part; inside each part every array (box, types, coordinates, energy, force and each optional array that the dataset has) holds the same frame range under its own name, and the type map lists the dataset's elements in type-index order. Exporting a collection exports each of its datasets with the same part size, the whole dataset by default.",
         over=["inputs", "configurations"], q="every number of frames, every part size including exact divisors, every combination of optional arrays",
         why="Tests export one trajectory with one part size.",
         files=["matersdk/data/infoset.py", "matersdk/data/infosets.py"],
         mech=[("InfoSet.to_dir", "matersdk/data/infoset.py"), ("InfoSets.to_dir", "matersdk/data/infosets.py")]),
    dict(id="C06", title="Loading and merging datasets keeps arrays and type indices aligned",
         statement="Loading a trajectory maps every atom's atomic number to its position in the dataset's element list, keeps each array under its own name, and reports composition, formula and frame count of that trajectory. Merging the trajectories found under a directory uses one shared element list, groups by formula, concatenates every array over the same sources in the same order, sums their frames, keeps the composition of that formula, and keeps an optional quantity only if every merged source has it.",
         over=["inputs", "configurations"], q="every set of trajectories, every element list, every combination of optional quantities",
         why="Tests merge copies of one trajectory with one composition.",
         files=["matersdk/data/infoset.py", "matersdk/data/infosets.py"],
         mech=[("InfoSet.from_file / __init__", "matersdk/data/infoset.py"), ("InfoSets.from_dir / get_num_frames", "matersdk/data/infosets.py")]),
    dict(id="C07", title="Structure transforms keep each site's species, position and data together",
         statement="Reordering by element or by atomic number permutes whole sites, removing vacancies removes exactly the vacancy sites, and a supercell keeps the undisplaced cell first followed by complete translated copies. Vacuum detection, centroid, per-site forces and energies, site lookup by position and element counts (ascending atomic number unless an order is given) are computed per axis, per site and per element from the structure itself.",
         over=["inputs"], q="every structure, element order and scaling vector",
         why="Tests transform two structures and do not compare results.",
         files=["matersdk/io/publicLayer/structure.py"], mech=[("DStructure transforms", "matersdk/io/publicLayer/structure.py")]),
    dict(id="C08", title="Neighbour tables hold each centre's own neighbours, sorted and aligned",
         statement="For every structure, cutoff and supercell, the neighbour tables have one row per atom of the central cell holding exactly the supercell atoms inside the closed cutoff sphere, nearest first (the centre itself leads), with species, distance and coordinates of one neighbour in the same column and zero beyond. The neighbour-count bounds count the same closed sphere without the centre, in total and per element. Neighbour indices are 1-based site indices of the neighbours of the asked species around the centres of the asked species, in table order, padded with 0 to the asked width, blocks joined by neighbour species and then by centre species.",
         over=["inputs"], q="every structure, cutoff, scaling vector, coordinate mode, species pair and padding width",
         why="Tests print the tables of one structure with one cutoff.",
         files=["matersdk/io/publicLayer/neigh.py"],
         mech=[("StructureNeighborsV1", "matersdk/io/publicLayer/neigh.py"), ("StructureNeighborsUtils", "matersdk/io/publicLayer/neigh.py")]),
    dict(id="C09", title="DeepPot descriptors and their derivatives follow the published formula",
         statement="For every centre and neighbour species, the pair features are the rows and columns of the neighbour tables belonging to that pair; the smooth weight of a neighbour is 1/r below the smoothing radius, 1/r times the fifth-order polynomial switch between the two radii, and exactly zero at and beyond the cutoff (and for padding); the descriptor row of a neighbour is (s, s x/r, s y/r, s z/r) of its own displacement; the reported derivative is the analytic derivative of exactly that row with respect to the centre's position; padding adds only zero rows up to the asked width and never drops a neighbour.",
         over=["inputs"], q="every neighbour table, species pair, cutoff pair and padding width",
         why="Tests print the descriptors of one structure; no formula, branch or derivative is compared with anything.",
         files=["matersdk/feature/deepmd/premise.py", "matersdk/feature/deepmd/se_pair.py", "matersdk/feature/deepmd/se.py"],
         mech=[("DpFeaturePairPremiseV1", "matersdk/feature/deepmd/premise.py"), ("DpseTildeRPairV1", "matersdk/feature/deepmd/se_pair.py"), ("DpseTildeRPairV1 (all pairs)", "matersdk/feature/deepmd/se.py")]),
    dict(id="C10", title="Descriptor normalisation uses each species' own statistics and is applied alike to values and derivatives",
         statement="Average and deviation are computed per centre species over the sampled descriptors of all neighbour species (radial column separately, angular columns with zero average and one shared deviation, a deviation below 0.01 replaced by 0.01), normalising subtracts the average and divides by the deviation, derivatives are divided by the same deviation, every centre/neighbour species pair of the structure appears with its own block, and what a normaliser saves is what it loads.",
         over=["inputs", "histories"], q="every sample of structures, every species list, every radius pair",
         why="The module is not reached by the stable tests.",
         files=["matersdk/feature/deepmd/preprocess.py"], mech=[("TildeRPairNormalizer, TildeRNormalizer, NormalizerPremise", "matersdk/feature/deepmd/preprocess.py")]),
    dict(id="C11", title="Band edges, gap and metallicity follow from all eigenvalues of REPORT",
         statement="From every REPORT file the eigenvalues of each k-point and spin are read completely and in file order; the system is a metal exactly when some band has states on both sides of the Fermi level; the conduction-band minimum is the lowest state at or above the Fermi level and the valence-band maximum the highest at or below it, over all spins, k-points and bands, with 1-based k-point and band numbers and every other state at that k-point sharing the energy; the gap is their difference and its type is decided by a shared k-point. The Fermi energy is the one OUT.FERMI holds.",
         over=["inputs"], q="every REPORT and OUT.FERMI text, spin-polarised or not",
         why="Tests of this part need files the repository does not ship and assert nothing.",
         files=["matersdk/io/pwmat/output/report.py", "matersdk/io/pwmat/output/outfermi.py"],
         mech=[("Report", "matersdk/io/pwmat/output/report.py"), ("OutFermi", "matersdk/io/pwmat/output/outfermi.py")]),
    dict(id="C12", title="k-points of IN.KPT keep their coordinates, weights, labels and path lengths",
         statement="For every IN.KPT file the number of k-points, their fractional coordinates, weights and labelled high-symmetry points are those of the file's own lines; Cartesian coordinates are the fractional ones times the reciprocal lattice (in 1/Angstrom or 1/Bohr), consecutive distances are between consecutive k-points, and path lengths accumulate them segment by segment from zero.",
         over=["inputs"], q="every IN.KPT text and structure",
         why="The reader's tests need files the repository does not ship.",
         files=["matersdk/io/pwmat/input/inkpt.py"], mech=[("Inkpt", "matersdk/io/pwmat/input/inkpt.py")]),
    dict(id="C13", title="MOVEMENT frames are cut at their own boundaries and each frame keeps its own energies and virial",
         statement="For every MOVEMENT file read with the Movement trajectory, frame sizes and boundaries partition the file's lines into consecutive frames; the text of frame k is exactly its own lines; structure, total/potential/kinetic energy and virial of frame k come from that text, alone or as the k-th entry of the whole-trajectory arrays, and a frame without virial yields a zero tensor alone and no entry in the trajectory array.",
         over=["inputs", "histories"], q="every MOVEMENT text, every frame index",
         why="The Movement tests need trajectories the repository does not ship; they print and assert nothing.",
         files=["matersdk/io/pwmat/output/movement.py"], mech=[("Movement", "matersdk/io/pwmat/output/movement.py")]),
    dict(id="C14", title="Projected densities of states and bands are sums over exactly the named element's columns",
         statement="For every DOS table, the total DOS is the energy and total columns, element projections are in file order and each is the sum over exactly the orbital columns of that element, orbital projections drop only the total; for every fat-band file, k-point distances are converted to 1/Angstrom, bands are split evenly by the number of bands, and element or orbital projections select exactly the columns of the asked element or orbital, next to k-point, energy and total weight.",
         over=["inputs"], q="every DOS table and fat-band text, every element set including symbols that are prefixes of others",
         why="The tests need files the repository does not ship; prefix clashes (S/Si, C/Cl) never occur in one sample.",
         files=["matersdk/io/pwmat/output/dostotalspin.py", "matersdk/io/pwmat/output/fatabandstructureTxt.py"],
         mech=[("Dostotalspin", "matersdk/io/pwmat/output/dostotalspin.py"), ("FatbandStructure", "matersdk/io/pwmat/output/fatabandstructureTxt.py")]),
    dict(id="C15", title="k-paths and k-meshes follow the reciprocal lattice, dimension and vacuum of the structure",
         statement="For every structure, special points are those of the symmetry analysis with Gamma named G, restricted to the z=0 plane for two-dimensional materials, and paths keep only such points and at least two of them; HIGHK lists every special point with its own coordinates; gen.kpt lists every consecutive pair of every path with the number of points given by its length in the reciprocal lattice over the density, rounded up; the k-mesh is the reciprocal length over the spacing rounded, at least one, and one along vacuum; a dimension other than 2 or 3 is rejected.",
         over=["inputs"], q="every structure, dimension, density",
         why="The stable test computes one path of one hexagonal structure and checks nothing.",
         files=["matersdk/calculation/kpath/kpathSampler.py", "matersdk/calculation/kpoints/kmesh.py", "matersdk/calculation/kpoints/kpointsSampler.py"],
         mech=[("KpathSampler", "matersdk/calculation/kpath/kpathSampler.py"), ("KMesh", "matersdk/calculation/kpoints/kmesh.py"), ("KPointsSampler", "matersdk/calculation/kpoints/kpointsSampler.py")]),
    dict(id="C16", title="Generated input files state every parameter once, on its own line, under its own key",
         statement="For every parameter set, the files written by GenVext (gen.vext), DosInput (DOS.input) and the slurm Job contain each parameter given to the constructor under its documented key or position, in the documented order and format, one directive per line, and GenVext rejects an unknown field type.",
         over=["inputs"], q="every parameter value",
         why="The stable test writes one gen.vext and does not look at it.",
         files=["matersdk/io/pwmat/input/gen_vext.py", "matersdk/io/pwmat/input/dos_input.py", "matersdk/hpc/slurm/job.py"],
         mech=[("GenVext.to", "matersdk/io/pwmat/input/gen_vext.py"), ("DosInput.to", "matersdk/io/pwmat/input/dos_input.py"), ("Job.to", "matersdk/hpc/slurm/job.py")]),
    dict(id="C17", title="Bond lengths, bond angles and mean square displacements are averages over exactly the right atoms and frames",
         statement="AvgBond averages the distance over every (centre of the first species, neighbour of the second species) pair of the neighbour table and nothing else; AvgAngle and AvgBond's angle filter consider every unordered pair of real neighbours of every centre of the first species once, never an atom with itself or a padding entry, use the angle in degrees clipped to a real value, and keep angle, shorter and longer bond aligned; PairBond gives the distance of the two atoms in every frame in order; Msd gives, for each pair of consecutive frames in order, the mean over atoms of the squared displacement (optionally about the centroids), DiffractionIntensity is exp(-q^2 msd / 3) of it; worker pools keep the order of their inputs and always have at least one worker.",
         over=["inputs", "configurations"], q="every neighbour table, trajectory and number of CPUs",
         why="No stable test covers these functions; the cases that matter (padding entries, equal species, collinear bonds, one-CPU machines) are not in any sample.",
         files=["matersdk/feature/avg/avgbond.py", "matersdk/feature/avg/avgangle.py", "matersdk/feature/avg/msd.py"],
         mech=[("AvgBond", "matersdk/feature/avg/avgbond.py"), ("PairBond", "matersdk/feature/avg/avgbond.py"), ("AvgAngle.get_avg_bond", "matersdk/feature/avg/avgangle.py"), ("Msd", "matersdk/feature/avg/msd.py"), ("DiffractionIntensity", "matersdk/feature/avg/msd.py")]),
    dict(id="C18", title="Collections of labelled structures keep structures, energies and virials frame-aligned and export every frame once",
         statement="StructCollection keeps the structures and the total, potential and kinetic energies and virials it is given in order, takes its species list (each once, in order of appearance), per-species atom counts and number of atoms from the first structure; slicing and from_indices select the same frames from every array; from_trajectory_s passes the reader's five results to their own fields; to() replaces the target directory, writes one species symbol per line in type-index order to type_map.raw and one index per atom to type.raw, and divides the frames into consecutive sets of set_size (last one smaller) with cell, coordinates, total energy, forces and, when present, virial and atomic energies of exactly those frames under their own names; save_all_info writes each frame's own data into its own folder; the largest neighbour counts are maxima over all frames (per species where asked); worker pools always have at least one worker.",
         over=["inputs", "configurations"], q="every collection of structures, index selection, set size and number of CPUs",
         why="No stable test covers the class; alignment of six arrays under slicing and the remainder set need every frame count and set size, not a sample.",
         files=["matersdk/data/struct_collection.py"],
         mech=[("StructCollection", "matersdk/data/struct_collection.py"), ("StructCollection.to", "matersdk/data/struct_collection.py"), ("ParallelFunction", "matersdk/data/struct_collection.py")]),
    dict(id="C19", title="Force-field export keeps every network parameter under its own name, and inference feeds the network the features, neighbours and counts of its own centre order",
         statement="FFExtractor stores weight, bias and (where present) residual factor of every embedding and fitting layer of every network once, each under the checkpoint's own name, together with M1, M2 and the layer widths taken from the checkpoint, and loading the file gives back every dataset under its name. InferPreprocessor concatenates relative positions by neighbour species within centre species using each neighbour species' own width, takes normalised features and derivatives, 1-based neighbour indices and atom counts in that same centre order, each with a leading batch axis of one. DpInfer hands them to the evaluated model in the order relative positions, features, derivatives, neighbours, counts on the requested device, refuses cuda when there is none, and returns total energy, atomic energies, forces and the 3x3 virial; the older interface computes one feature table per ordered pair of species with the neighbour species' width.",
         over=["inputs", "configurations"], q="every checkpoint, network size, structure, species order and device",
         why="No stable test reaches the inference package; the layer-count, species-order and width cases that go wrong need networks and structures no test builds.",
         files=["matersdk/infer/pwmatmlff/deepmd/extractor.py", "matersdk/infer/pwmatmlff/deepmd/preprocess.py", "matersdk/infer/pwmatmlff/deepmd/inference.py", "matersdk/infer/pwmatmlff/deepmd/inference_depre.py"],
         mech=[("FFExtractor.save_hdf5_file", "matersdk/infer/pwmatmlff/deepmd/extractor.py"), ("InferPreprocessor", "matersdk/infer/pwmatmlff/deepmd/preprocess.py"), ("DpInfer", "matersdk/infer/pwmatmlff/deepmd/inference.py"), ("FFInfer.calc_tildeR", "matersdk/infer/pwmatmlff/deepmd/inference_depre.py")]),
    dict(id="C20", title="Periodic adjacency counts every neighbour image, and perturbed copies are complete structures of their own",
         statement="AdjacentMatrix accepts only positive odd scalings; the images it considers are the structure's fractional coordinates shifted by every cell of the supercell centred on the primitive cell, once each; entry (i, j) of the symmetric adjacency matrix is the number of images of atom j whose Cartesian distance to atom i is at most rcut, an atom never counting itself. PerturbStructure.perturb returns exactly pert_num structures, each from its own copy of the input with its own random draws: cell and Cartesian coordinates are deformed by one symmetric matrix (diagonal 1 + e, off-diagonal e/2, |e| bounded by cell_pert_fraction), every atom is displaced by its own random vector scaled by atom_pert_distance/sqrt(3), and cell and coordinates are rotated by the same proper rotation to a lower-triangular cell with positive diagonal, keeping the species order; negative amplitudes are refused; batch_perturb writes copy k of each system to <system>/structures/k.config in PWmat format.",
         over=["inputs", "configurations"], q="every structure, cutoff, scaling, amplitude and number of copies",
         why="The result is random or depends on a whole cell; the one test only prints a matrix. Self-images, even scalings, left-handed QR factors and aliasing between copies are not sampled.",
         files=["matersdk/feature/graph/edge.py", "matersdk/adalearn/generator/perturbation.py"],
         mech=[("AdjacentMatrix", "matersdk/feature/graph/edge.py"), ("PerturbStructure", "matersdk/adalearn/generator/perturbation.py"), ("BatchPerturbStructure.batch_perturb", "matersdk/adalearn/generator/perturbation.py")]),
    dict(id="C21", title="C++ structures keep their geometry: coordinates, supercells, lattice planes, bounding box",
         statement="In the C++ core a Structure built from Cartesian or fractional coordinates holds exactly the given lattice, atomic numbers and Cartesian coordinates (frac * lattice), and a copied or assigned structure holds the same; make_supercell lays the cells out with z running fastest, the original cell in the middle (one more cell on the positive side for even multiples), atoms in the original order inside each cell, lattice vectors scaled and the pseudo origin at the corner of the lowest cell; Supercell reports the original cell and the atoms it owns at exactly that place for every scaling; projected lengths, interplanar distances, the 8 corners and the bounding box are those of the current (enlarged) cell; no element outside an array is read or written.",
         over=["inputs"], q="for every number of atoms, lattice, species, coordinates and scaling (each axis 1, any even or any odd number)",
         why="tests look at a few cells of one structure with 3x3x1 multiples; an index or parity slip only shows for other multiples or skewed lattices",
         files=["source/nblist/include/structure.h", "source/nblist/include/binLinkedList.h", "source/core/include/vec3Operation.h"],
         mech=[("Structure", "source/nblist/include/structure.h"), ("Supercell", "source/nblist/include/binLinkedList.h"), ("vec3Operation", "source/core/include/vec3Operation.h")], tech=CXX, note=CXX_NOTE),
    dict(id="C22", title="The C++ neighbour list bins every atom once and lists exactly the atoms within the cutoff of the searched bins",
         statement="BinLinkedList enlarges the structure by 2*ceil(rcut / interplanar distance) + 1 cells along each periodic axis and 1 along the others, cuts the bounding box of that supercell into bins of the given size (rcut/2 by default) counted from its lower corner, and chains every atom into the bin floor((x - low) / size) it lies in, x running fastest, the latest atom at the head; the searched bins are all those within ceil(rcut / size) of the atom's own bin, wrapped along periodic axes and marked -1 where they fall outside otherwise; get_neigh_atoms returns every chained atom with 0.001 < d^2 < rcut^2 from the image of the centre in the original cell, bin after bin. NeighborList keeps one such list per atom of the original cell, ordered by increasing distance when asked; the largest neighbour counts (all, or of one species around another) are maxima over the centres; find_info4mlff reports for each centre its index, atomic number and neighbour count, the neighbours' indices in the original cell padded with -1 and neighbour minus centre positions padded with 0, at stride umax_num_neigh_atoms; no element outside an array is read or written where that is decidable.",
         over=["inputs", "configurations"], q="for every structure, cutoff, bin size, periodicity and chain table",
         why="The repository's C++ tests are not part of the stable suite and print lists for one structure; an off-by-one in a bin index or range only loses pairs for particular cells and cutoffs.",
         files=["source/nblist/include/binLinkedList.h", "source/nblist/include/neighborList.h"],
         mech=[("BinLinkedList", "source/nblist/include/binLinkedList.h"), ("NeighborList", "source/nblist/include/neighborList.h")], tech=CXX, note=CXX_NOTE),
    dict(id="C23", title="The C++ descriptors hold each neighbour's smoothed environment, and its exact derivative, in the row of its centre and the block of its species",
         statement="For every neighbour table, every set of species and every cutoff, each row of the smooth-edition descriptor belongs to one centre atom and each block of columns to one neighbour species; the neighbours of that species fill the block in the order of the neighbour list and the rest is zero. An entry holds s(r), s(r)x/r, s(r)y/r, s(r)z/r, where s is 1/r inside the inner cutoff, 0 beyond the outer one and the quintic switch between; the derivative table holds the derivatives of exactly those four values (with respect to the neighbour's coordinates in the environment matrix, to the centre's in the other tables). All variants (whole table, one pair of species, from a neighbour list, into memory of the caller) agree.",
         over=["every neighbour table", "every set and number of species", "every pair of cutoffs", "every distance, including zero"],
         q="for all inputs",
         why="A force field trained on a descriptor whose derivative is not its derivative gives forces that are not the gradient of the energy; nothing fails visibly.",
         files=["source/descriptor/deepmd/include/se.h", "source/descriptor/deepmd/include/se4pw.h", "source/descriptor/deepmd/include/envMatrix.h"],
         mech=[("EnvMatrix::find_value_deriv", "source/descriptor/deepmd/include/envMatrix.h"), ("Se4pw::generate / get_prim_indices_from_matersdk", "source/descriptor/deepmd/include/se4pw.h"), ("PairTildeR / TildeR / SwitchFunc / smooth_func", "source/descriptor/deepmd/include/se.h")],
         tech=CXX, note=CXX_NOTE),
    dict(id="C24", title="The moment-tensor radial functions are the switched Chebyshev polynomials with their exact derivatives, and the products of moments up to a level are complete, ordered and contractible",
         statement="For every number of functions, every distance and every pair of cutoffs, the k-th radial function is T_k of the distance scaled onto [-1, 1] times the quintic switch, zero outside the cutoffs, and the table of derivatives holds its derivative with respect to the distance (Chebyshev polynomials by their recurrence, for both implementations of the radial functions; building again for another distance leaves nothing of the previous one). The level of a moment M(mu, nu) is 2 + 4 mu + nu; the products of one level are all multisets of moments whose levels add up to it, each once and sorted by rank; the basis up to a level is, in order of level, exactly those products that contract to a scalar (a single moment of rank zero, the largest rank equal to the sum of the others, or every non-zero rank an even number of times).",
         over=["every number of radial functions", "every distance and pair of cutoffs", "every level"],
         q="for all inputs",
         why="A wrong derivative or a missing product gives a potential that trains to a plausible but inconsistent energy; tests compare printed values at one distance.",
         files=["source/descriptor/mtp/include/mtpMRadial.h", "source/descriptor/mtp/src/mtpLevel.cc", "source/descriptor/mtpr/include/basis.h"],
         mech=[("MtpQ::build / ChebyshevPoly::build / MtpSwitchFunc1 / MtpSwitchFunc2", "source/descriptor/mtp/include/mtpMRadial.h"), ("MtpMCoeffPairCombs::get_all_schemes4lev / get_contracted_combs / build", "source/descriptor/mtp/src/mtpLevel.cc"), ("RB_Chebyshev / RQ_Chebyshev / SwitchFunction", "source/descriptor/mtpr/include/basis.h")],
         tech=CXX, note=CXX_NOTE),
    dict(id="C25", title="Objects of the C++ core are values: copies are complete and independent, moves hand everything over, and memory is neither used after release, released twice nor lost",
         statement="For structures, supercells, bins, neighbour lists, descriptors (of a pair of species and of all species), radial functions (both implementations) and moment-tensor parameters, whatever they hold: a copy-constructed or copy-assigned object shows exactly what the original showed, and goes on doing so when the original is changed or destroyed, and the other way round; assignment returns the object it was applied to, works onto empty and non-empty objects of any size, onto itself, and from an empty object; a moved-from object is empty and the target holds what it held; every array an object owns is released when the object is destroyed or overwritten, once; nothing reads or writes released memory, follows a null pointer or runs past the end of an array.",
         over=["every class of the C++ core that owns memory", "every sequence of copy, assignment, move and destruction covered by the scenarios", "all contents; all sizes for structures, supercells and Chebyshev tables, two atoms or records for the others"],
         q="for all inputs",
         why="Misuse of memory usually goes unnoticed in a short test and corrupts results or crashes elsewhere; tests copy one object once.",
         files=["source/nblist/include/structure.h", "source/nblist/include/binLinkedList.h", "source/nblist/include/neighborList.h", "source/descriptor/deepmd/include/se.h", "source/descriptor/mtp/include/mtpMRadial.h", "source/descriptor/mtpr/include/basis.h", "source/descriptor/mtpr/src/mtpParam.cc"],
         mech=[("copy and move constructors, operator=, destructors", "source/nblist/include/structure.h"), ("Supercell / BinLinkedList", "source/nblist/include/binLinkedList.h"), ("NeighborList", "source/nblist/include/neighborList.h"), ("PairTildeR / TildeR", "source/descriptor/deepmd/include/se.h"), ("ChebyshevPoly / MtpQ", "source/descriptor/mtp/include/mtpMRadial.h"), ("RB_Chebyshev / RQ_Chebyshev", "source/descriptor/mtpr/include/basis.h"), ("MtpParam", "source/descriptor/mtpr/src/mtpParam.cc")],
         tech=CXX, note=CXX_NOTE),
]

NA_PROPS = [
    dict(id="C26", title="The chosen supercell is large enough for the cutoff",
         statement="Every atom within the cutoff of a centre, in any periodic image, appears among the centre's neighbours, whatever the cell.",
         over=["cells", "cutoffs", "scaling matrices"], q="every cell, cutoff and scaling matrix a user passes",
         why="Tests use a few roomy cells.",
         files=["matersdk/io/publicLayer/neigh.py", "source/nblist/include/neighborList.h"], mech=[("scaling_matrix / rcut", "matersdk/io/publicLayer/neigh.py")],
         reason="Whether the images the caller asked for reach as far as the cutoff depends on the numbers of the cell and the scaling passed at run time; the code states no relation between them that a static argument could check. What is decidable, that exactly the atoms within the cutoff among the images built are listed, is C08, C20 and C22."),
    dict(id="C27", title="Numbers survive being written and read back",
         statement="Coordinates, lattices, energies and forces written to any of the text formats are read back within the printed precision.",
         over=["floating-point values"], q="every value a file can hold",
         why="Tests write a handful of values.",
         files=["matersdk/io/publicLayer/structure.py"], mech=[("number formats", "matersdk/io/publicLayer/structure.py")],
         reason="The size of the rounding error depends on the run-time magnitude of each value (a fixed number of decimals loses small numbers); the analysis treats floating point as exact arithmetic, so it decides which value is written where and with which format (C02, C04, C12, C16) but not the error."),
    dict(id="C28", title="The irreducible k-points represent the whole mesh",
         statement="The reduced k-points and weights of a mesh are exactly the symmetry-inequivalent points with their multiplicities.",
         over=["crystal structures", "meshes"], q="every structure and mesh",
         why="Tests reduce one or two meshes.",
         files=["matersdk/calculation/kpoints/kpointsSampler.py"], mech=[("SpacegroupAnalyzer", "matersdk/calculation/kpoints/kpointsSampler.py")],
         reason="The reduction is done inside spglib (compiled third-party code) on run-time numbers and tolerances; only the arguments handed over and the use of the result are in this repository."),
    dict(id="C29", title="The gradients of the torch operators are the derivatives of their values",
         statement="For every input, the backward pass of the custom torch operators returns the gradient of the forward pass with respect to the inputs.",
         over=["tensors"], q="every input tensor",
         why="Tests compare single tensors.",
         files=["source/descriptor/deepmd/src/envMatrixOp.cc", "source/descriptor/mtp/src/mtpMRadialOp.cc", "source/descriptor/mtp/src/mtpMAngularOp.cc"], mech=[("EnvMatrixFunction / MtpQFunction / OuterNu0Function", "source/descriptor/deepmd/include/envMatrixOp.h")],
         reason="Shapes, strides, devices and broadcasting of the tensors are run-time values handled inside libtorch, and the operators' sources cannot be translated without its headers' semantics; the derivatives the operators call into are decided in C23 and C24."),
    dict(id="C30", title="MTP parameter files are parsed completely",
         statement="Every parameter of an MTP file ends up in the field of that name, for every file a trained potential may come as.",
         over=["files"], q="every MTP file",
         why="Tests read two template files.",
         files=["source/descriptor/mtpr/src/mtpParam.cc"], mech=[("MtpParam::load", "source/descriptor/mtpr/src/mtpParam.cc")],
         reason="The parser steps a std::ifstream by characters with state that depends on what it finds (operator>> , ignore, get); the position in the stream after each step is a run-time quantity the analysis has no model for. Ownership of what it fills is decided in C25."),
    dict(id="C31", title="Predicted energies and forces are accurate",
         statement="Energies, forces and virials predicted with an exported force field agree with the reference calculation and with each other (forces are minus the gradient of the energy).",
         over=["structures", "trained networks"], q="every structure and network",
         why="Tests print predictions of one frame.",
         files=["matersdk/infer/pwmatmlff/deepmd/inference.py"], mech=[("inference", "matersdk/infer/pwmatmlff/deepmd/inference.py")],
         reason="Depends on trained weights and on torch's autograd at run time; the static part, that each feature, neighbour list and count reaches the network in the order of its centre, is C19."),
]


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS + NA_PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["q"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
            }) + "\n")
    m = {"version": 1, "setup_cmd": "python3-vt check.py --selftest",
         "checks": [{"property": p["id"], "quick_cmd": "python3-vt check.py %s quick" % p["id"],
                     "thorough_cmd": "python3-vt check.py %s thorough" % p["id"],
                     "technique": p.get("tech", GVN), "level": "other", "level_note": p.get("note", GVN_NOTE)} for p in PROPS],
         "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA_PROPS],
         "notes": "All checks are static: they parse /repo's working tree on every run and execute none of it."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
