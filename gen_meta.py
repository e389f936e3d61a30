"""writes properties.jsonl and MANIFEST.json from one table"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
SE = "symbolic execution of the real code; polynomial normal form + z3 decide every obligation on every path; counterexamples replayed on the unmodified code"
P = []


def prop(id, title, statement, over, text, why, files, mech, note, na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=mech), note=note, na=na))


NB = "source/nblist/include/"
DP = "source/descriptor/deepmd/include/"
prop("P01", "Native structures, supercells and cell geometry are exact",
     "A native crystal structure built from fractional or Cartesian coordinates reports exactly the Cartesian positions, species and lattice it was given. "
     "A supercell contains every requested periodic image of every atom exactly once with the scaled lattice, and its home-cell atoms are the original atoms at their original positions. "
     "Plane spacings, corners, extents and projected lengths of a cell are those of the parallelepiped spanned by its lattice.",
     ["inputs", "configurations"], "all lattices, atom positions and per-axis repetition counts (odd and even) within the stated bounds",
     "The native code has no test in the stable suite at all; a test samples a few lattices while image order, parity of the repetition count and signs of lattice components matter.",
     [NB + "structure.h", NB + "binLinkedList.h"], ["Structure constructors and calc_cart_coords", "make_supercell", "Supercell home cell and owned atom indices", "interplanar distances, vertexes, limits"],
     "every lattice/position value symbolic; up to 3 atoms and scaling up to 4 (5 in thorough) per axis")
prop("P02", "Native neighbour lists hold exactly the images within the cutoff",
     "For every atom of the cell, the native neighbour list contains every periodic image (along the periodic axes) of every atom closer than the cutoff, each exactly once, and nothing else: no atom beyond the cutoff, not the centre itself. "
     "This holds for any lattice, periodicity, cutoff, bin size and atom placement, and when sorting is requested the neighbours come in order of distance.",
     ["inputs", "configurations"], "positions of an atom, cutoff or lattice scale symbolic over families of lattices, periodicities and bin sizes",
     "Missing or duplicate neighbours appear only for particular atom placements relative to bin walls, cell faces and cutoff; sampled structures do not reach them.",
     [NB + "neighborList.h", NB + "binLinkedList.h"], ["supercell size from plane spacings", "binning of atoms and of neighbour bins incl. wrap-around", "distance filter", "sort"],
     "2-4 atoms, 8 lattice families, one or two symbolic degrees of freedom at a time, all image shells that can reach the cutoff")
prop("P03", "Flattened neighbour arrays and neighbour counts mirror the neighbour list",
     "The flat arrays handed to machine-learning force fields list, for every centre, its species, its neighbour count, the in-cell index and the displacement of each neighbour in list order, with unused slots marked -1 and zero displacement. "
     "The reported largest neighbour count, overall and per species pair, equals the true maximum, so buffers sized with it are never overrun.",
     ["inputs", "configurations"], "symbolic atom placement, several lattices, periodicities, species patterns and spare capacities",
     "The suite has no assertion on these arrays; index folding and padding errors show only for some neighbour patterns.",
     [NB + "neighborList.h"], ["find_info4mlff", "get_max_num_neigh_atoms", "get_max_num_neigh_atoms_ssss"],
     "same systems as P02 with 0-5 spare slots; heap canaries watch every buffer")
prop("P04", "The switching function is the documented quintic with its exact derivative",
     "The smooth-cutoff switching function is one below the inner cutoff, the documented quintic between the cutoffs and zero at and beyond the outer cutoff, stays in [0,1] and never increases. "
     "Its reported derivative is its true derivative everywhere and vanishes at both cutoffs, and the smooth weight is the switching function divided by the distance.",
     ["inputs"], "all distances and all pairs of cutoffs",
     "Piecewise definitions are wrong at a branch boundary or by a coefficient; no stable test evaluates them.",
     [DP + "se.h"], ["SwitchFunc", "smooth_func", "recip"], "rc, rs and r all symbolic")
prop("P05", "Native environment matrix rows have the documented values and slots",
     "Each row of the smooth environment matrix is the documented function of one neighbour's displacement, placed in the slot block of its species in neighbour order, for every centre. "
     "Slots without a neighbour are exactly zero, no value depends on memory the caller did not provide, and the owner indices and relative coordinates reported per slot are those of the neighbour in that slot.",
     ["inputs", "configurations"], "symbolic displacements and species assignment over several neighbour topologies and all native entry points",
     "No stable test runs this code; a wrong slot, sign or padding shows only for certain species patterns.",
     [DP + "envMatrix.h", DP + "se4pw.h", DP + "se.h"], ["find_value_deriv", "Se4pw::generate, get_prim_indices", "TildeR/PairTildeR generate"],
     "2 centres, up to 3 neighbours, 2 species, coordinates symbolic per axis")
prop("P06", "Native environment matrix derivatives are the true derivatives",
     "Every derivative reported with the smooth environment matrix equals the partial derivative of the corresponding value with respect to the documented coordinate, in the inner, switching and outer distance ranges. "
     "Derivatives of padding slots are zero, and derivative slots line up with value slots.",
     ["inputs", "configurations"], "symbolic displacements and species assignment over several neighbour topologies and all native entry points",
     "Forces are wrong only in some distance range or component; finite differences at sampled points miss branch boundaries and no stable test does even that.",
     [DP + "envMatrix.h", DP + "se4pw.h", DP + "se.h"], ["find_value_deriv", "Se4pw::generate", "TildeR/PairTildeR deriv"],
     "exact differentiation of the symbolic value against the reported derivative")
prop("P07", "Moment-tensor radial bases are Chebyshev polynomials with exact derivatives",
     "The moment-tensor radial functions are the Chebyshev polynomials of the scaled distance times the switching function inside the cutoff and zero outside, for every basis size, cutoff and distance, whether or not the object was used before. "
     "Every reported derivative is the true derivative, so values and forces vanish continuously at the cutoff.",
     ["inputs", "histories"], "all distances, cutoffs, basis sizes 0..6 (7 thorough) and rebuilds of the same object",
     "No stable test runs this code; recurrence and chain-rule errors appear from some order on.",
     ["source/descriptor/mtp/include/mtpMRadial.h", "source/descriptor/mtp/include/mtpMRadial_de.h", "source/descriptor/mtpr/include/basis.h", "source/core/include/vec3Operation.h"],
     ["MtpSwitchFunc1/2", "ChebyshevPoly, MtpQ", "RB_Chebyshev, RQ_Chebyshev", "RadialBasisChebyshev", "RecursionOuterProduct"],
     "rc, rs, r symbolic; sizes up to 6 (7)")
prop("P08", "Native objects survive any sequence of copies, assignments and moves",
     "After any sequence of copying, assigning (including to itself or from an empty object), moving and destroying native structures, neighbour lists, descriptors and moment-tensor tables, every live object still has exactly the value it should and shares nothing with the others. "
     "No heap block is released twice, used after release, overrun or leaked, and assignment yields the assigned object.",
     ["histories", "inputs"], "all sequences of 2 (thorough 3-4) such operations over 2-3 objects, contents symbolic",
     "Ownership errors need a specific sequence (self-assignment, assignment from an empty object, moved-from reuse) and often go unnoticed without a heap monitor.",
     [NB + "structure.h", NB + "binLinkedList.h", NB + "neighborList.h", DP + "se.h", "source/descriptor/mtp/include/mtpMRadial.h", "source/descriptor/mtpr/include/basis.h", "source/descriptor/mtpr/src/mtpParam.cc", "source/descriptor/mtp/src/mtpLevel.cc"],
     ["copy/move constructors and assignment operators", "destructors", "MtpParam file loading"],
     "operation order chosen by the engine (all sequences within the bound), contents symbolic, heap monitored")

exec(open(os.path.join(HERE, "meta_py.py")).read()) if os.path.exists(os.path.join(HERE, "meta_py.py")) else None

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
man = dict(version=1, setup_cmd="true",
           checks=[dict(property=p["id"], quick_cmd="bash run.sh %s quick" % p["id"], thorough_cmd="bash run.sh %s thorough" % p["id"],
                        evidence_file="evidence/%s.json" % p["id"], technique=SE, level="model_checking",
                        level_note="bounded: " + p["note"] + "; real arithmetic, not floating point") for p in P if not p["na"]],
           not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p["na"]],
           hooks=dict(guard="none", enable="no hooks: the checks compile or import /repo's sources as they are"))
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(man["checks"]), "checks")
