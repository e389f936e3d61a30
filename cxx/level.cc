// Harness: the list of moment-tensor combinations up to a level.
#include "sym.h"
#include "memmon.h"
#include "descriptor/mtp/src/mtpLevel.cc"
using namespace matersdk::mtp;

static void flat(std::vector<int> &o, const std::vector<std::vector<MtpMCoeffPair>> &cs) {
    for (auto &c : cs) { o.push_back((int)c.size()); for (auto &p : c) { o.push_back(p.coeff_pair().first); o.push_back(p.coeff_pair().second); } }
}
static void pair_ok(const MtpMCoeffPair &p) { env_check(p.level() == 2 + 4 * p.coeff_pair().first + p.coeff_pair().second, "level of a moment"); }
CASE(level_list) {
    int L = env_int("level", env_iparam("lo"), env_iparam("hi"));
    MtpMCoeffPairCombs c(L);
    env_check(c.max_level() == L, "level kept");
    env_check(c.size() == (int)c.coeff_pair_combs().size(), "size of the list");
    std::vector<int> o = {L, c.nmus(), c.nmus_check()};
    for (auto &k : c.coeff_pair_combs()) {
        for (size_t i = 0; i < k.size(); i++) { pair_ok(k[i]); if (i) env_check(k[i - 1].coeff_pair().second >= k[i].coeff_pair().second, "highest tensor first"); }
        env_reach("combination");
    }
    flat(o, c.coeff_pair_combs());
    // building again gives the list again, not a longer one
    if (L <= 12) { int n = c.size(); c._build(); env_check(c.size() == n, "building again"); }
    env_table("levels", o);
    env_reach("end");
}
CASE(level_schemes) {
    int L = env_int("level", env_iparam("lo"), env_iparam("hi"));
    auto cs = MtpMCoeffPairCombs::get_all_schemes4lev(L, 0, 0);
    std::vector<int> o = {L};
    flat(o, cs);
    env_table("schemes", o);
    std::vector<int> k = {L};
    flat(k, MtpMCoeffPairCombs::get_contracted_combs(cs));
    env_table("contracted", k);
    env_reach("end");
}
