"""copy / move / assignment safety of the C++ classes that own heap memory"""
from engine.runner import Case
from checks.common import REAL, MEM
H = "own.cc"
ASSUMPTIONS = [REAL, MEM, "a moved-from object is only assigned to or destroyed afterwards", "plain operator new blocks are not monitored"]
CLS = {"own_structure": "Structure", "own_supercell": "Supercell, BasicStructureInfo", "own_bins": "BinLinkedList", "own_list": "NeighborList",
       "own_tilder": "TildeR", "own_pairtilder": "PairTildeR", "own_cheb": "ChebyshevPoly", "own_mtpq": "MtpQ", "own_rb": "RB_Chebyshev",
       "own_rq": "RQ_Chebyshev", "own_param": "MtpParam", "own_combs": "MtpMCoeffPairCombs, MtpMCoeffPair"}


def cases(tier):
    out = []
    plan = [(1, 3), (2, 2), (2, 3)] if tier == "quick" else [(2, 3), (3, 2), (3, 3), (4, 2)]
    for c, cl in CLS.items():
        for st, sl in plan:
            heavy = c in ("own_list", "own_tilder", "own_pairtilder", "own_bins")
            if tier == "quick" and heavy and st * sl > 4:
                continue
            if heavy and st * sl > 6:
                continue
            out.append(Case("%s_%d_%d" % (c, st, sl), entry=c, harness=H, params=dict(steps=st, slots=sl), max_paths=60000,
                            budget=300 if tier == "quick" else 1500, reach=["copy", "assign", "move", "move assign", "end"],
                            functions=["constructors, copy/move constructors and assignments, destructor of " + cl],
                            bounds="every sequence of %d operations (copy, assign incl. to itself, move, move-assign, copy-then-change) over %d "
                                   "objects of different size, one possibly empty; contents symbolic" % (st, sl)))
    out.append(Case("param_load", harness=H, reach=["end"], functions=["source/descriptor/mtpr/src/mtpParam.cc: MtpParam::_load"],
                    bounds="table sizes 0..4"))
    return out
