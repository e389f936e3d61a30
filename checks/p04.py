"""DP switching function"""
from engine.runner import Case
from checks.common import REAL
H = "deepmd.cc"
F = ["source/descriptor/deepmd/include/se.h: SwitchFunc::get_result, get_deriv2r, smooth_func, recip"]
ASSUMPTIONS = [REAL]
B = "rc in [0.5,12], rs in [0,10], rc-rs >= 1/8, distance in [0,16], all symbolic"


def cases(tier):
    out = [Case("switch_value", harness=H, reach=["inner", "mid", "outer"], functions=F, bounds=B),
           Case("switch_deriv", harness=H, reach=["outer"], functions=F, bounds=B),
           Case("smooth_value", harness=H, reach=["end"], functions=F, bounds=B)]
    rng = [(4, 2), (6, "1/2"), (5, 0), (8, 7)] if tier == "quick" else [(a, b) for a in range(2, 11) for b in range(0, a)]
    from fractions import Fraction
    out += [Case("switch_range_%s_%s" % (a, str(b).replace("/", "over")), entry="switch_range", harness=H,
                 params={"rc": a, "rs": Fraction(b)}, reach=["near rc"] + (["near rs"] if True else []), functions=F,
                 bounds="rc=%s rs=%s, any distance in [0,16]" % (a, b)) for a, b in rng]
    return out
