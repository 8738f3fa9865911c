// C17: code pages. Oracle: the frozen list of code pages, and conversion by name.
#include "common.hpp"
#include <cppp/reiconv.hpp>
#include <fstream>
#include <sstream>
using namespace vp;
static std::map<int, int> &CP() { // code page -> encoding
    static std::map<int, int> m;
    if (m.empty()) { std::ifstream f(std::string(getenv("VP_DATA")) + "/codepages.txt"); int n; std::string id; while (f >> n >> id) m[n] = enc(id.c_str()).idx; if (m.size() < 50) { fprintf(stderr, "no code pages\n"); exit(2); } }
    return m;
}
static std::vector<int> &L() { static std::vector<int> v; if (v.empty()) for (auto &p : CP()) v.push_back(p.first); return v; }
static void one(int n) {
    auto it = CP().find(n); int got = SUT.lookup_cp(n), want = it == CP().end() ? -1 : E[it->second].sut;
    if (got != want) fail("code page %d resolves to index %d, expected %d (%s)", n, got, want, it == CP().end() ? "unknown" : E[it->second].names[0].c_str());
}
// All 2^32 numbers.
SWEEP(c17_all, "c17_all", 65536) {
    uint32_t base = (uint32_t)I << 16; static bool near[65536]; static bool init = false; if (!init) { init = true; for (int p : L()) near[(uint32_t)p >> 16] = true; }
    if (near[I]) for (uint32_t k = 0; k < 65536; k++) one((int)(base + k));
    else for (uint32_t k = 0; k < 65536; k++) { int r = SUT.lookup_cp((int)(base + k)); if (r != -1) fail("code page %d, which does not exist, resolves to index %d", (int)(base + k), r); }
    evals(65536); if (near[I] || (I & 15) == 0) nontrivial(I);
    if (near[I]) label("chunks with code pages"); else label("chunks without");
}
static int gen_cp(Src &S) {
    switch (S.draw(7)) {
    case 0: case 1: case 2: return S.pick(L());
    case 3: return S.pick(L()) + (int)S.draw(5) - 2;
    case 4: return -(int)S.pick(L());
    case 5: { static const int e[] = {0, -1, -2, 1, 65535, 65536, 65537, INT32_MAX, INT32_MIN, INT32_MIN + 1, 0x10000 + 1252, 1 << 24, 199, 198, 197, 65534}; return e[S.draw(16)]; }
    default: return (int)((S.draw(65536) << 16) | S.draw(65536)) >> S.draw(24);
    }
}
// Opening by code page, alone and in pairs, and the C++ constructor.
CASE(c17_open, "c17_open") {
    int a = gen_cp(S), b = gen_cp(S), fl = S.draw(2); auto x = CP().find(a), y = CP().find(b); bool ok = x != CP().end() && y != CP().end(); one(a); one(b);
    errno = 0; void *cd = SUT.open_cp(a, b, fl); int e = errno; sample(fmt("%d -> %d", a, b));
    if (!ok) { if (cd != (void *)-1) fail("opening code pages %d -> %d gives a descriptor", a, b); if (e != EINVAL) fail("opening code pages %d -> %d fails with error %d", a, b, e); label("unknown"); nontrivial(mix(a, b)); }
    else {
        if (cd == (void *)-1) fail("opening code pages %d -> %d fails with error %d", a, b, e); std::unique_ptr<void, int (*)(void *)> cl(cd, SUT.close);
        Enc &f = E[x->second], &t = E[y->second]; bytes in = gen_bytes(S, f, 20); Result g = run(SUT, cd, in), w = run(REF, f, t, fl, in); void *nd = SUT.open_name(f.names[0].c_str(), t.names[0].c_str(), fl); if (nd == (void *)-1) fail("cannot open %s", pairname(f, t).c_str()); Result h = run(SUT, nd, in); SUT.close(nd);
        if (g != h || g != w) fail("code pages %d -> %d, flags %d, input %s: %s; by name (%s) %s, expected %s", a, b, fl, hex(in).c_str(), show(g).c_str(), pairname(f, t).c_str(), show(h).c_str(), show(w).c_str());
        label("known"); if (in.size() > 1) nontrivial(hash_str(in, mix(a, b)));
    }
    for (int n : {a, b}) { bool threw = false; int idx = -2; try { idx = (int)reiconv::Encoding(n); } catch (std::invalid_argument &) { threw = true; } auto it = CP().find(n); if (threw != (it == CP().end()) || (!threw && idx != E[it->second].sut)) fail("reiconv::Encoding(%d) %s", n, threw ? "throws" : "has the wrong index"); }
}
// Every ordered pair of the code pages.
SWEEP(c17_pairs, "c17_pairs", L().size()) {
    int a = L()[I]; Enc &f = E[CP()[a]]; Src S; S.st = mix(base_seed(), I);
    for (int b : L()) { Enc &t = E[CP()[b]]; void *cd = SUT.open_cp(a, b, 0); if (cd == (void *)-1) fail("opening code pages %d -> %d fails", a, b); std::unique_ptr<void, int (*)(void *)> cl(cd, SUT.close); text k; for (auto c : gen_text(S, f, 12)) if (t.rep.has(c)) k.push_back(c); bytes in = ref_encode(f, k); Result g = run(SUT, cd, in), w = run(REF, f, t, 0, in); if (g != w) fail("code pages %d -> %d: input %s gives %s, expected %s", a, b, hex(in).c_str(), show(g).c_str(), show(w).c_str()); evals(1); if (in.size() > 1) nontrivial(hash_str(in, mix(a, b))); }
    label("pairs");
}
