"""moment-tensor torch operators and modules"""
from engine.runner import Case
from checks.common import REAL, MEM
from checks.p27 import ASSUMPTIONS as A27
H = "mtptorch.cc"
D = "source/descriptor/mtp/src/"
ASSUMPTIONS = [REAL, MEM, A27[2], "the modules are converted to the precision of the displacements", "cutoffs rc=5, rs=1 (the radial functions are decided for all cutoffs by P07)",
               "torch's own differentiation of products and sums is outside; the two hand-written backward passes are inside"]


def cases(tier):
    out = []
    q = tier == "quick"
    for ax in (0, 1, 2):
        for n in ([3] if q else [3, 5]):
            out.append(Case("mtp_q_op_%d_%d" % (ax, n), entry="mtp_q_op", harness=H, params=dict(n=n, size=3 if q else 5, axis=ax, rc=5, rs=1), reach=["end", "term", "unused slot"],
                            functions=[D + "mtpMRadialOp.cc: MtpQFunction::forward, backward, MtpQOp"],
                            bounds="%d neighbours, one coordinate of any of them and the incoming gradient of the last symbolic, 1..%d radial functions, both precisions, contiguous and strided gradients" % (n, 3 if q else 5)))
        out.append(Case("mtp_angular_%d" % ax, entry="mtp_angular", harness=H, params=dict(n=3, nu=3 if q else 5, axis=ax), reach=["end", "constant", "product"],
                        functions=[D + "mtpMAngularOp.cc"], bounds="3 neighbours, ranks 0..%d, one coordinate symbolic" % (3 if q else 5)))
    for pad in (-1, 0):
        out.append(Case("mtp_m_%d" % pad, entry="mtp_m", harness=H, params=dict(nb=1 if q else 2, pad=pad, size=2, nmus=2, nu=2 if q else 4, rc=5, rs=1), reach=["end", "moment"],
                        functions=[D + "mtpMModule.cc"], budget=600 if q else 1500,
                        bounds="2 centres, up to 2 neighbours and an unused slot, 2 species, distance of any neighbour and any coefficient symbolic, ranks 0..%d" % (2 if q else 4)))
        for L in ([6, 8] if q else [8, 10, 12]):
            for nb in ([2] if q else [1, 2]):
                out.append(Case("mtp_b_%d_%d_%d" % (pad, L, nb), entry="mtp_b", harness=H, params=dict(nb=nb, pad=pad, size=2, level=L, rc=5, rs=1), reach=["end", "largest"] + (["pairs"] if L >= 12 else []),
                                functions=[D + "mtpBModule.cc", D + "mtpMModule.cc", D + "mtpLevel.cc"], budget=600 if q else 1500,
                                bounds="batches of %d structures, level %d, types per structure or shared, distance of any neighbour and any coefficient symbolic" % (nb, L)))
    return out
