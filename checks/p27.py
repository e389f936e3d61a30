"""torch operators of the DeepPot-SE descriptors on batches"""
from engine.runner import Case
from checks.common import REAL, MEM
H = "torchops.cc+torchbind.cc"
D = "source/descriptor/deepmd/"
FN = {"env_op": [D + "src/envMatrixOp.cc: EnvMatrixFunction::forward, EnvMatrixOp", D + "include/envMatrix.h: EnvMatrix::find_value_deriv", D + "bind/envMatrixOp_bind.cc"],
      "se4pw_op": [D + "src/se4pw_op.cc: Se4pwOp::forward, get_prim_indices_from_matersdk", D + "include/se4pw.h: Se4pw"]}
ASSUMPTIONS = [REAL, MEM, "torch's tensors are replaced by a small tensor library with the same interface (cxx/fake/torch): strided views, dtypes, "
               "bounds and dtype errors; torch itself is outside the encoding", "contiguous input tensors",
               "cutoffs rc=4, rs=2 (the switching function itself is decided for all cutoffs by P04)"]


def cases(tier):
    out = []
    nbs = [1, 2] if tier == "quick" else [1, 2, 3]
    for k in ("env_op", "se4pw_op"):
        for nb in nbs:
            for shape in (0, 1):
                for axis in (0, 1, 2):
                    if tier == "quick" and nb == 1 and axis != shape:
                        continue
                    out.append(Case("%s_%d_%d_%d" % (k, nb, shape, axis), entry=k, harness=H,
                                    params=dict(nb=nb, shape=shape, axis=axis, rc=4, rs=2, pad=0 if axis else -1, bound=axis % 2), reach=["end", "row", "padding"],
                                    functions=FN[k],
                                    bounds="batch of %d structures, 2 centres, 4 atoms, up to 3 neighbours, 4 slots; one coordinate symbolic in [-5,5] at any "
                                           "neighbour of any structure; types and precision (single, double) symbolic" % nb))
    return out
