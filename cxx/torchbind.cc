// Harness part: the operator as registered with torch under its Python name.
#include "sym.h"
#include <torch/torch.h>
typedef at::Tensor TT; typedef torch::autograd::variable_list VL;
typedef std::function<VL(TT, TT, TT, TT, TT, TT, Real, Real)> OpFn;
static std::map<std::string, OpFn> &reg() { static std::map<std::string, OpFn> r; return r; }
template <class F> void torch::Library::def(const char *n, F f) { if constexpr (std::is_invocable_r<VL, F, TT, TT, TT, TT, TT, TT, Real, Real>::value) reg()[n] = OpFn(f); }
#include "descriptor/deepmd/bind/envMatrixOp_bind.cc"
VL bound_op(TT a, TT b, TT c, TT d, TT e, TT f, Real rc, Real rs) {
    auto it = reg().find("EnvMatrixOp");
    if (it == reg().end()) throw CodeEvent{"operator EnvMatrixOp is not registered"};
    return it->second(a, b, c, d, e, f, rc, rs);
}
