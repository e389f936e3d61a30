PL = "matersdk/io/publicLayer/"
PW = "matersdk/io/pwmat/"
prop("P09", "Structures written to atom.config are read back unchanged",
     "A structure written as a PWmat atom.config file and read back, from the file or from its text, has the same atoms in the same order with the same species, lattice, fractional coordinates and magnetic moments, up to the printed precision. "
     "Files laid out by other tools (section titles in any letter case, stress columns, extra sections, different headers) are read the same way, and reading a file that was rewritten gives the new content.",
     ["inputs", "histories"], "all lattices, coordinates, moments and species of up to 3 (5) atoms; all combinations of header, tail, section and letter-case variants",
     "The tests print what was read without comparing it; precision, ordering and stale-content errors depend on the values and on what was read before.",
     [PL + "structure.py", PW + "utils/acextractor.py", PW + "utils/lineLocator.py"], ["DStructure.to/from_file/from_str", "ACExtractor, ACstrExtractor", "LineLocator, ListLocator"],
     "1-3 atoms (5 thorough), every number symbolic, files written to a scratch directory")
prop("P10", "Python supercells hold every image once and identify the home cell",
     "Expanding a structure by odd repetition counts gives every image of every atom exactly once, with the scaled lattice, optionally sorted by atomic number, and leaves the input untouched. "
     "The reported key indices pick exactly the atoms of the original cell at their original positions, and the in-cell owner of any image point is found (0 where there is no atom).",
     ["inputs", "configurations"], "all atom positions inside and outside the unit cell, repetition counts, species orders and lattice families within the bounds",
     "The tests print one supercell; the home cell's position in the image order depends on the repetition counts and the species order.",
     [PL + "structure.py"], ["make_supercell_", "get_key_idxs, _get_bidx2aidx_supercell", "reformat_elements_", "get_site_index"],
     "1-4 atoms at symbolic positions, repetition up to 5 (7 thorough), 4 lattice families")
prop("P11", "Python neighbour lists hold exactly the images within the cutoff",
     "For every atom of the cell, the neighbour tables list the atom itself first and then every image within the cutoff (at most that far away) exactly once in order of distance, with its species, distance and position; shorter rows are padded with zeros. "
     "Rows come in order of atomic number, and nothing beyond the cutoff appears.",
     ["inputs", "configurations"], "symbolic atom position or cutoff over systems with different lattices, species orders and repetition counts",
     "Missing neighbours, wrong padding or order depend on the positions relative to the cutoff; the tests assert nothing.",
     [PL + "neigh.py", PL + "structure.py"], ["StructureNeighborsV1._get_key_neighs_info"],
     "1-4 atoms, up to 54 atoms in the expanded cell, one symbolic degree of freedom at a time")
prop("P12", "Python neighbour counts and neighbour index lists match the neighbour list",
     "The reported largest neighbour count, overall and per element, is the true maximum over all atoms. "
     "The neighbour index list names, block by block per neighbour element and nearest first, the in-cell index (from 1) of every neighbour, and holds 0 in every unused slot.",
     ["inputs", "configurations"], "symbolic atom position or cutoff, element orders and spare capacities",
     "A count that is one short overruns buffers only for certain placements; the tests print results for one structure.",
     [PL + "neigh.py", PL + "structure.py"], ["StructureNeighborsUtils.get_max_num_nbrs_real(_element)", "get_nbrs_indices"],
     "same systems as P11; both element orders, with and without padding")
prop("P13", "Species-pair features select exactly the neighbours of that pair",
     "For every pair of a centre species and a neighbour species, the extracted features hold exactly the neighbours of that species around each centre of that species, nearest first, with distance and position relative to the centre. "
     "Unused slots are zero, and widening the arrays adds zeros only.",
     ["inputs", "configurations"], "symbolic atom position or cutoff over systems with several species",
     "Masks and zero padding interact with atoms at the origin and with rows of different length; sampled structures rarely show it.",
     ["matersdk/feature/deepmd/premise.py", PL + "neigh.py"], ["DpFeaturePairPremiseV1.extract_feature_pair, expand_rc"],
     "same systems as P11, all pairs of their species")
prop("P14", "The Python smooth descriptor has the documented values and derivatives",
     "Each row of the smooth descriptor is the documented switching-function row of one neighbour, zero at and beyond the cutoff, ordered by centre species, neighbour species and distance, padded with zero rows. "
     "The reported derivatives are the true derivatives with respect to the position of the centre in every distance range, and zero for padding.",
     ["inputs", "configurations"], "all neighbour displacements, in the inner, switching and outer ranges; symbolic positions in small systems",
     "Errors hide in one distance range, one component or the padding; the tests print arrays without asserting.",
     ["matersdk/feature/deepmd/se.py", "matersdk/feature/deepmd/se_pair.py", "matersdk/feature/deepmd/premise.py"], ["DpseTildeRV1.get_tildeR", "DpseTildeRPairV1.get_tildeR, calc_derivative"],
     "displacements symbolic in [-5,5], cutoffs 2 and 4; systems of P11")
prop("P15", "The adjacency matrix counts the images within the cutoff",
     "Entry (i, j) of the adjacency matrix is the number of images of atom j (the atom itself left out) within the cutoff of atom i among the requested repetitions. "
     "Repetition counts that are not positive odd numbers are rejected.",
     ["inputs", "configurations"], "symbolic atom position or cutoff; all repetition counts from -1 to 5",
     "The tests print one matrix; image indexing and boundary errors depend on placement.",
     ["matersdk/feature/graph/edge.py"], ["AdjacentMatrix.get_adjacent_matrix", "_get_shifted_supercell_frac_coords"], "systems of P11")
prop("P16", "MOVEMENT trajectories come out frame by frame exactly as in the file",
     "Reading a PWmat MOVEMENT file gives, for every frame, the lattice, species, coordinates, energies, forces, virial, atomic energies and magnetic moments that stand in that frame, whichever optional sections it has and whatever frame is asked for. "
     "Single-frame and all-frame access agree, frames are neither lost nor mixed, and derived quantities (volume, largest neighbour count) are those of the frames.",
     ["inputs", "configurations"], "every number of 1-3 (4) frames symbolic, every combination of optional sections, header variants and frame sizes",
     "The tests read one bundled file and assert nothing; a missing section, another header or the last frame take different code paths.",
     [PW + "output/movement.py", PW + "utils/mvextractor.py", PW + "utils/acextractor.py", PW + "utils/lineLocator.py"], ["Movement", "MVExtractor", "ACstrExtractor", "LineLocator, ListLocator"],
     "1-3 frames (4 thorough) of 1-3 atoms, every number symbolic")
prop("P17", "Exported training sets hold every frame of every trajectory exactly once",
     "Collecting MOVEMENT files into information sets groups them by chemical formula, and the exported directories hold every frame exactly once, in order, split into parts of the requested size (the last one may be shorter). "
     "In each part the rows of lattice, coordinates, energies, forces, virials, atomic energies and moments belong to the same frame, quantities a file lacks are filled or left out consistently, and type.raw and type_map.raw describe the atoms.",
     ["inputs", "configurations"], "all numbers of up to 4 frames, part sizes, combinations of optional sections, several files with equal or different formulas",
     "The tests export one bundled data set and check nothing; losing the last part or mixing two files shows only for certain sizes and section combinations.",
     ["matersdk/data/infoset.py", "matersdk/data/infosets.py", PW + "utils/mvextractor.py"], ["InfoSet.from_file, to_dir, merging", "InfoSets.from_dir, to_dir"],
     "1-4 frames per file, 1-3 files of 1-3 atoms, every number symbolic; directories written to scratch")
prop("P18", "Structure collections select, count and export their structures faithfully",
     "A StructCollection built from a trajectory keeps structures, energies and virials of one frame together through indexing, slicing and selection by index list; indices outside the collection are rejected. "
     "The deepmd-style export and the per-image export hold exactly the frames asked for in sets of the requested size, with one row per frame in every array, element names in type_map.raw, atomic quantities in the order of the atoms, and the reported largest neighbour counts are those of all structures, on machines with any number of processors.",
     ["inputs", "configurations"], "all numbers of up to 4 structures, all index tuples and slices, set sizes, with and without virial and atomic energies, 1-4 processors",
     "Ranges, set borders and missing virials take different code paths; the tests export one trajectory and assert nothing.",
     ["matersdk/data/struct_collection.py", PL + "structure.py"], ["StructCollection.from_trajectory_s, from_indices, __getitem__, to, save_all_info, get_max_num_nbrs_real(_element)", "DStructure.from_str, get_atomic_force, get_atomic_energy"],
     "2-4 structures of 1-3 atoms, every number symbolic; pools run sequentially")
prop("P19", "K-point paths, IN.KPT files and meshes agree with the reciprocal lattice",
     "The k-path files list every high-symmetry point and segment of the path (without the out-of-plane ones in two dimensions) with as many points per segment as the requested density asks for by its length in reciprocal space. "
     "IN.KPT files are read back with their points, weights and labels; Cartesian coordinates and the band-plot abscissa follow from the reciprocal lattice, never decrease, and stand still at breaks. Mesh sizes follow from the lengths of the reciprocal vectors and are 1 along vacuum.",
     ["inputs", "histories"], "symbolic high-symmetry points, k points, weights, densities, atom heights and lattice constants over several lattices; files that are rewritten",
     "The tests print the results for one crystal; wrong metrics vanish on cubic cells and off-by-one breaks depend on the label pattern.",
     ["matersdk/calculation/kpath/kpathSampler.py", "matersdk/calculation/kpoints/kmesh.py", PW + "input/inkpt.py"], ["KpathSampler", "KMesh.get_kmesh, judge_vacuum_exist", "Inkpt"],
     "up to 5 high-symmetry points, 5-9 k points, 4 lattices; symmetry analysis by a stand-in")
prop("P20", "Bands, band edges and gaps come out of REPORT and OUT.FERMI correctly",
     "Reading REPORT gives every eigenvalue under its spin channel, k point and band, whatever the number of bands per line, and reading rewritten files gives the new content. "
     "The system is metallic exactly when a band crosses the Fermi level; otherwise the conduction band minimum and valence band maximum are the lowest state at or above and the highest at or below it, reported with k point and band counted from 1 and with every band sharing the edge at that k point exactly once; the gap is their difference and direct exactly when both lie at the same k point.",
     ["inputs", "histories"], "every energy of up to 2 spins x 3 k points x 11 bands symbolic on reading; up to three energies around the Fermi level symbolic for the edges, near-degenerate partners included",
     "The tests need files that are not in the repository; edges depend on the order of energies, on spin and on ties.",
     [PW + "output/report.py", PW + "output/outfermi.py"], ["Report", "OutFermi.get_efermi"], "1-2 spins, 1-3 k points, 1-11 bands")
prop("P21", "Editing a structure keeps every atom with its position and properties",
     "Sorting by atomic number (in place, or on reading a file when asked), reordering by a list of elements and removing vacancies keep, drop or move whole atoms: each remaining atom keeps its species, position and moment, equal species keep their order, and copies leave the original alone. "
     "Atom counts come in order of atomic number or in the requested order, the centroid is the mean position, and an axis counts as vacuum exactly when its lattice vector is more than 10 Angstrom longer than the extent of the atoms.",
     ["inputs", "configurations"], "every assignment of species to up to 4 sites with all coordinates and moments symbolic; symbolic lattice vector for the vacuum test",
     "Mixing up atoms shows only for particular species orders; the tests print results.",
     [PL + "structure.py"], ["reformat_elements_, reformat_elements, remove_vacanies, get_natoms, get_centroid, judge_vacuum_exist, from_file(sort)"],
     "1-4 sites (5 thorough), 3 species")
prop("P22", "Perturbed copies are deformed and displaced as documented",
     "Perturbing a structure gives the requested number of copies, each deformed by a symmetric matrix whose components are drawn independently and uniformly from the documented ranges, with every atom carried along and then displaced by its own random vector of the documented size. "
     "The copies are turned to a lower-triangular lattice with positive diagonal without changing shape or relative positions, the original is untouched, negative sizes are rejected, and the batch version writes one file per copy.",
     ["inputs", "schedules"], "all random draws symbolic for one draw; for whole copies the displacements, one or two components of the deformation or coordinates symbolic",
     "Outcomes are random, so tests cannot compare them; a wrong rotation or an unturned coordinate looks plausible.",
     ["matersdk/adalearn/generator/perturbation.py"], ["PerturbStructure", "BatchPerturbStructure.batch_perturb"], "1-2 atoms (3 thorough), 1-3 copies, 3 lattices, draws fed as symbolic inputs")
prop("P23", "Displacements, bond lengths and angles average exactly the right pairs",
     "For a trajectory, the mean squared displacement of every step (plain or without the drift of the centroid), the diffraction intensity derived from it and the distance between two given atoms follow from the positions of the frames, one value per step or frame, on any number of processors. "
     "The average bond length of two species runs over exactly the neighbours within the cutoff, and bond angles, the order parameter and the angle-selected bond lengths run over every pair of different neighbours of a centre exactly once.",
     ["inputs", "configurations"], "symbolic positions, lattice component and cutoff; all species pairs and triples",
     "Double counting, self pairs and periodic images change averages only slightly; the tests print them.",
     ["matersdk/feature/avg/msd.py", "matersdk/feature/avg/avgbond.py", "matersdk/feature/avg/avgangle.py"], ["Msd, DiffractionIntensity", "AvgBond, PairBond", "AvgAngle.get_avg_bond"],
     "2-3 frames of 1-3 atoms; systems of P11 and small clusters")
prop("P24", "Normalised descriptors and model inputs stay aligned slot by slot",
     "The statistics of a descriptor are the mean of its radial entries (zero for the angular ones) and the standard deviations of radial and angular entries, never below 0.01, over exactly the rows of the chosen structures; normalising subtracts and divides by the statistics of the centre species and scales derivatives alike. "
     "The arrays prepared for a model (displacements, normalised rows, derivatives, neighbour indices, atom counts) describe the same neighbour in the same slot and are what inference hands to the model, whose answer is returned unchanged; statistics and network parameters saved to HDF5 are read back unchanged under their names.",
     ["inputs", "configurations"], "symbolic descriptor entries, statistics, atom coordinate and network weights over several systems, species subsets and network shapes",
     "A swapped species index or shifted slot gives plausible numbers; the tests need files that are not in the repository.",
     ["matersdk/feature/deepmd/preprocess.py", "matersdk/infer/pwmatmlff/deepmd/preprocess.py", "matersdk/infer/pwmatmlff/deepmd/extractor.py", "matersdk/infer/pwmatmlff/deepmd/inference.py"],
     ["TildeRPairNormalizer, TildeRNormalizer, NormalizerPremise", "InferPreprocessor, DpInfer", "FFExtractor"],
     "systems of P11, 1-6 descriptor rows, 1-2 networks of 1-3 layers; h5py and torch files by stand-ins")
prop("P25", "DOS and fat-band tables give every column and element sum exactly",
     "Reading a density-of-states file gives energy and total, every orbital column, and for every element the sum of exactly its own orbitals, whatever the header layout; the file is left alone and no helper file remains. "
     "Reading a fat-band file gives one table per band with k distances in 1/Angstrom, every weight in its column, element sums over exactly that element's orbitals, and the column of a named orbital in any letter case.",
     ["inputs", "configurations"], "every number symbolic; sets of columns with elements whose symbols begin alike; header layouts; numbers of bands and k points",
     "Elements whose symbols begin alike (S/Si, C/Ca/Cl) are mixed up only in some compounds; the tests need files that are not in the repository.",
     [PW + "output/dostotalspin.py", PW + "output/fatabandstructureTxt.py"], ["Dostotalspin", "FatbandStructure"], "1-3 energies, 1-3 bands, 1-3 k points, 1-4 projected columns")
prop("P26", "Generated input files and job scripts carry exactly the given values",
     "DOS.input, gen.vext and slurm job scripts contain every given value exactly once, in the documented order and under the documented keyword, one option per line, and reading them back gives the values up to the printed precision. "
     "Undocumented field types are rejected, and writing again replaces the file.",
     ["inputs"], "all numeric values symbolic; field types 0-4, all switch settings",
     "The test of the writer only writes; a lost line break or a swapped value goes unnoticed.",
     [PW + "input/dos_input.py", PW + "input/gen_vext.py", "matersdk/hpc/slurm/job.py"], ["DosInput.to", "GenVext", "Job.to"], "all values symbolic")
prop("P27", "Batched torch operators give each structure its own environment matrix",
     "The torch operators of the DeepPot-SE descriptors, called on a batch in single or double precision directly or through the registered operator, return for every structure of the batch exactly the values and derivatives of that structure's own environment matrix, in the slots given by its own species, neighbour lists and slot counts. "
     "Shapes and precision follow the inputs, unused slots are zero (owner index -1), the inputs are left alone and nothing outside the tensors is touched.",
     ["inputs", "configurations"], "batches of 1-3 structures that differ in species, neighbours and slot counts; coordinate, species, precision and its place in the batch symbolic",
     "The operators have no test in the stable suite; using the first structure's lists for the whole batch is invisible for a batch of one or of equal structures.",
     ["source/descriptor/deepmd/src/envMatrixOp.cc", "source/descriptor/deepmd/src/se4pw_op.cc", "source/descriptor/deepmd/bind/envMatrixOp_bind.cc"],
     ["EnvMatrixFunction::forward, EnvMatrixOp", "Se4pwOp::forward, get_prim_indices_from_matersdk", "TORCH_LIBRARY(deepmd)"],
     "1-2 (thorough 3) structures, 2 centres, 4 atoms, 4 slots; torch replaced by a small tensor library of the same interface")
MT = "source/descriptor/mtp/"
prop("P28", "The moment-tensor basis lists every contractible combination exactly once",
     "For every maximal level, the list of moment combinations contains every multiset of moments (mu, nu) whose levels 2 + 4 mu + nu add up to at most the maximum and which can be contracted to a scalar (the largest tensor used up by the others, or every order appearing an even number of times), and nothing else. "
     "No combination is listed twice, the highest tensor comes first, and the number of radial functions reported is the number the list uses.",
     ["inputs", "configurations"], "all maximal levels 0..20 (26 thorough); the multiset of moments is symbolic",
     "Duplicates and omissions begin at levels beyond the one the (unrun) test looks at; a test can compare a few lists, not decide completeness.",
     [MT + "src/mtpLevel.cc", MT + "include/mtpLevel.h"], ["MtpMCoeffPairCombs::_build, get_all_schemes4lev, get_contracted_combs, nmus, nmus_check", "MtpMCoeffPair::level"],
     "levels 0..20; the solver searches for a multiset on which list and definition differ")
prop("P29", "Moment-tensor modules evaluate the documented moments, contractions, gradients",
     "The radial operator returns Chebyshev polynomial times switching function for every neighbour and its backward pass the exact vector-Jacobian product, zero for unused slots. "
     "A moment is the sum over the neighbours of the radial function with the coefficients of that radial index and ordered pair of species times the outer power of the displacement; a basis function is the full contraction of its moments, for every structure of a batch with its own species, neighbours and centres, in single or double precision.",
     ["inputs", "configurations"], "symbolic coordinate or distance of any neighbour, symbolic coefficient and incoming gradient; species, ranks, precision, batches enumerated symbolically",
     "No stable test runs the modules; swapped species, wrong strides or the first structure's species for the whole batch go unnoticed in symmetric samples.",
     [MT + "src/mtpMRadialOp.cc", MT + "src/mtpMAngularOp.cc", MT + "src/mtpMModule.cc", MT + "src/mtpBModule.cc"],
     ["MtpQFunction::forward/backward", "OuterNu0Function, MtpMAngularOp", "MtpMModuleImpl::forward", "MtpBModuleImpl::forward"],
     "up to 3 (5) neighbours, ranks 0..3 (5), levels up to 8 (12), batches of 2; torch replaced by a small tensor library of the same interface")
prop("P30", "The Python neighbour-list binding passes arguments and results faithfully",
     "find_info4mlff called from Python returns exactly the arrays the native neighbour list gives for that lattice, those positions (fractional or Cartesian), cutoff, periodicity and sorting, whatever the memory layout of the arguments, with the documented shapes and types. "
     "The arguments are neither changed nor kept, releasing the result releases all memory, and a number of slots too small for the neighbours is reported as an error without touching memory outside the buffers.",
     ["inputs", "configurations"], "symbolic coordinate over several lattices and periodicities; all memory layouts of the arguments, -1..2 spare slots",
     "No stable test calls the binding; leaks, overruns and misread strides do not show in a passing call.",
     ["source/nblist/bind/nblist_bind.cc", "source/nblist/bind/nblist_bind.h"], ["find_info4mlff"],
     "1-4 atoms; Python and numpy C APIs by a reference-counting stand-in, SWIG's generated code outside")
prop("P31", "Core vectors, arrays and moment-tensor template files are exact",
     "The native vector types and functions compute sums, differences, scalings, comparisons, dot, cross and outer products, norms and unit vectors exactly component by component and leave operands alone that are not assigned to. "
     "The array helpers give every element its own storage (zero when asked) and release all of it; aligned arrays start at a 16-byte boundary wherever the allocator put the block, hold what was written, and their copies are independent. "
     "A moment-tensor template file is loaded with every count, index row and mapping as in the file, and a missing, short or wrongly keyed file is reported as an error.",
     ["inputs", "configurations"], "all vector components and scalars; all array extents, sizes, table sizes and block positions within the bounds",
     "The core library's tests are not part of the stable suite and look at single samples of symmetric vectors; a swapped component, a leak or a missed row of a long table passes them.",
     ["source/core/include/vecx.h", "source/core/include/vec3Operation.h", "source/core/include/arrayUtils.h", "source/core/include/AlignedArray.h", "source/descriptor/mtpr/src/mtpParam.cc"],
     ["Vec3", "dot, cross, norm, normalize, RecursionOuterProduct", "allocateNdArray, freeNdArray", "AlignedArray", "MtpParam::_load"],
     "components symbolic; extents up to 3 (4), sizes 0..5, tables up to 120 (800) rows, outer rank up to 5 (7)")
