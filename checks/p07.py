from engine.runner import Case
H = "mtp.cc"
F = "source/descriptor/mtp/include/mtpMRadial.h: "
G = "source/descriptor/mtpr/include/basis.h: "
B = "cutoffs rc in [0.5,12], rs in [0,10] with rc-rs >= 1/8 and distance in [0,16], all symbolic; basis size 0..%d"
ASSUMPTIONS = ["real arithmetic: doubles are read as the reals they denote, rounding is not modelled",
               "the Python-facing torch modules that call these bases are outside the encoding"]


def cases(tier):
    n = 6 if tier == "quick" else 7
    def c(name, reach, fns):
        return Case(name, harness=H, params=dict(nmax=n), reach=reach, functions=fns, bounds=B % n)
    return [c("mtp_switch", ["below", "between", "beyond"], [F + "MtpSwitchFunc1, MtpSwitchFunc2"]),
            c("mtp_cheb", ["term"], [F + "ChebyshevPoly::build"]),
            c("mtp_q", ["inside", "outside"], [F + "MtpQ::build"]),
            c("mtp_cutoff", ["term"], [F + "MtpQ::build"]),
            c("mtpr_rb", ["term"], [G + "RB_Chebyshev::build"]),
            c("mtpr_rq", ["inside", "at the cutoff"], [G + "RQ_Chebyshev::build, SwitchFunction"]),
            c("mtp_rbc", ["below", "between", "beyond"],
              ["source/descriptor/mtp/include/mtpMRadial_de.h: SwitchFunc, RadialBasisChebyshev"]),
            Case("outer_product", harness=H, reach=["end"], bounds="vector components in [-8,8], rank 1..4",
                 functions=["source/core/include/vec3Operation.h: RecursionOuterProduct"])]
