"""core vector algebra, array helpers and moment-tensor template files"""
from engine.runner import Case
from checks.common import REAL, MEM
H = "core.cc"
C = "source/core/include/"
T = ["source/descriptor/mtpr/src/mtpParam.cc: MtpParam::_load and the getters"]
ASSUMPTIONS = [REAL, MEM, "aligned arrays of trivially copyable elements", "template files in the layout of the shipped ones (ten header lines, one table per line)"]


def cases(tier):
    q = tier == "quick"
    B = "all vector components and the scalar symbolic in [-8,8]"
    out = [Case("vec3_arith", harness=H, reach=["end"], functions=[C + "vecx.h: Vec3"], bounds=B),
           Case("vec3_div", harness=H, reach=["end"], functions=[C + "vecx.h: Vec3::operator/, /="], bounds=B + ", |scalar| >= 1/4"),
           Case("vec3_equal", harness=H, reach=["equal", "different"], functions=[C + "vecx.h: Vec3::operator==, !="], bounds=B),
           Case("vec_ops", harness=H, reach=["end"], functions=[C + "vec3Operation.h: dot, cross"], bounds=B),
           Case("vec_norm", harness=H, reach=["end"], functions=[C + "vec3Operation.h: norm, normalize"], bounds="one component symbolic in [-8,8], the others fixed"),
           Case("vec_outer", harness=H, params=dict(nmax=5 if q else 7), reach=["end"], functions=[C + "vec3Operation.h: RecursionOuterProduct"],
                bounds="components symbolic in [-8,8], rank 1..%d" % (5 if q else 7))]
    for d in (3, 4, 5):
        top = 2 if q else 3
        out.append(Case("array_%dd" % d, entry="array_nd", harness=H, params=dict(dim=d, top=top), reach=["end"], max_paths=60000,
                        functions=[C + "arrayUtils.h: allocate%ddArray, free%ddArray" % (d, d)], bounds="every extent 1..%d (last one 0..), with and without zeroing, reals and ints" % (top + 1)))
    for e in ("aligned_int", "aligned_real", "aligned_char"):
        out.append(Case(e, harness=H, reach=["end", "resized", "copied"], max_paths=60000, functions=[C + "AlignedArray.h: AlignedArray"],
                        bounds="sizes 0..5, every position of the raw block relative to the boundary, resize, copy, assignment"))
    out.append(Case("template_load", harness=H, params=dict(big=0), reach=["end"], functions=T, bounds="tables of 0..3 rows, values of one digit to the largest int, both signs"))
    out.append(Case("template_big", entry="template_load", harness=H, params=dict(big=60 if q else 400), reach=["end"], functions=T, bounds="tables of up to %d rows" % (120 if q else 800)))
    out.append(Case("template_reject", harness=H, reach=["wrong keyword", "short", "missing"], functions=T, bounds="each keyword wrong, file ending before each keyword, missing file"))
    return out
