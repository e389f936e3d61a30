// Included once by each harness source: case runner and heap monitor.
// malloc/calloc/realloc/free/new[]/delete[] of the library are routed here by the linker (--wrap):
// every block has canaries, is filled with a poison pattern when allocated and when released, and
// released blocks stay quarantined until the path ends.
Callbacks CB;
struct MemBlock { size_t n; bool live; int kind, skew; };
int mem_skew = 0;                       // shifts the start of new[] blocks (kind 1)
static std::map<char *, MemBlock> &mem_tab() { static std::map<char *, MemBlock> t; return t; }
static std::string mem_bad;
static const size_t MEM_PAD = 2048;
#if SYM
static const unsigned char MEM_FILL[4] = {0xC3, 0xC3, 0xC3, 0xC3}, MEM_FREED[4] = {0xD3, 0xD3, 0xD3, 0xD3};
#else
static const unsigned char MEM_FILL[4] = {0xC3, 0xC3, 0xFB, 0xFF}, MEM_FREED[4] = {0xD3, 0xD3, 0xFC, 0xFF};   // NaN as a number, large and negative as an int
#endif
static void mem_fill(char *p, size_t n, const unsigned char *pat) { for (size_t i = 0; i < n; i++) p[i] = (char)pat[i & 3]; }
static const unsigned char MEM_CAN = 0xC3;
extern "C" {
void *__real_malloc(size_t);
void __real_free(void *);
static bool mem_on = false;
static void *mem_alloc(size_t n, int kind, bool zero) {
    int skew = kind == 1 ? mem_skew : 0;
    char *b = (char *)__real_malloc(n + 2 * MEM_PAD + 16) + skew;
    memset(b, MEM_CAN, MEM_PAD);
    if (zero) memset(b + MEM_PAD, 0, n); else mem_fill(b + MEM_PAD, n, MEM_FILL);
    memset(b + MEM_PAD + n, MEM_CAN, MEM_PAD);
    mem_tab()[b + MEM_PAD] = MemBlock{n, true, kind, skew};
    return b + MEM_PAD;
}
static bool mem_canary(char *p, const MemBlock &k) {
    static const std::string can(MEM_PAD, (char)MEM_CAN);
    return !memcmp(p - MEM_PAD, can.data(), MEM_PAD) && !memcmp(p + k.n, can.data(), MEM_PAD);
}
static void mem_release(void *vp, int kind) {
    if (!vp) return;
    auto it = mem_tab().find((char *)vp);
    if (it == mem_tab().end()) { if (mem_bad.empty()) mem_bad = "release of a pointer that was never allocated"; return; }
    if (!it->second.live) { if (mem_bad.empty()) mem_bad = "block released twice"; return; }
    if (it->second.kind != kind && mem_bad.empty()) mem_bad = "block released by the wrong function";
    if (!mem_canary(it->first, it->second) && mem_bad.empty()) mem_bad = "write outside a heap block";
    it->second.live = false;
    mem_fill(it->first, it->second.n, MEM_FREED);
}
static void mem_sweep() {
    for (auto &kv : mem_tab()) {
        if (!mem_canary(kv.first, kv.second) && mem_bad.empty()) mem_bad = "write outside a heap block";
        if (!kv.second.live) for (size_t i = 0; i < kv.second.n; i++) if ((unsigned char)kv.first[i] != MEM_FREED[i & 3]) { if (mem_bad.empty()) mem_bad = "write to a released block"; break; }
    }
}
static void mem_reset() { for (auto &kv : mem_tab()) __real_free(kv.first - MEM_PAD - kv.second.skew); mem_tab().clear(); mem_bad.clear(); mem_skew = 0; }
void *__wrap_malloc(size_t n) { return mem_on ? mem_alloc(n, 0, false) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return mem_alloc(a * b, 0, true); }
void *__wrap_realloc(void *p, size_t n) {
    void *q = mem_alloc(n, 0, false);
    if (p) { auto it = mem_tab().find((char *)p); if (it != mem_tab().end()) memcpy(q, p, std::min(n, it->second.n)); mem_release(p, 0); }
    return q;
}
void __wrap_free(void *p) { mem_release(p, 0); }
void *__wrap__Znam(size_t n) { return mem_alloc(n, 1, false); }
void __wrap__ZdaPv(void *p) { mem_release(p, 1); }
void __wrap__ZdaPvm(void *p, size_t) { mem_release(p, 1); }
void __wrap___assert_fail(const char *e, const char *, unsigned, const char *) { throw CodeEvent{std::string("assertion failed: ") + e}; }
void __wrap_exit(int rc) { throw CodeEvent{"exit(" + std::to_string(rc) + ") called"}; }
void __wrap_abort() { throw CodeEvent{"abort() called"}; }
}
// zero-size blocks hold nothing and are not counted
long mem_live() { long n = 0; for (auto &kv : mem_tab()) n += kv.second.live && kv.second.n; return n; }
std::string mem_state() { if (mem_bad.empty()) mem_sweep(); return mem_bad; }
static std::string last_event;
extern "C" {
void h_setup(const Callbacks *c) { CB = *c; }
const char *h_event() { return last_event.c_str(); }
int h_run(const char *name) {
    auto it = CaseReg::table().find(name);
    if (it == CaseReg::table().end()) return 9;
    mem_reset(); mem_on = true; last_event.clear();
    int rc = 0;
    try { it->second(); }
    catch (PathAbort &) { rc = 1; }
    catch (CodeEvent &e) { rc = 2; last_event = e.what; }
    catch (std::exception &e) { rc = 2; last_event = std::string("exception: ") + e.what(); }
    catch (...) { rc = 2; last_event = "exception"; }
    mem_sweep();
    if (!mem_bad.empty() && rc != 1) { rc = 2; last_event = "memory: " + mem_bad; }
    mem_on = false;
    return rc;
}
}
