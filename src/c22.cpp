// C22: public constants. Oracle: the frozen meaning of every constant, the reference conversions of that encoding.
#include "stream.hpp"
#include <cppp/reiconv.h>
#include <cppp/reiconv.hpp>
using namespace vp;
enum { MISSING = -999 };
struct K { const char *name, *id; int cpp, c; };
static const K KS[] = {
#include "vp_constants.inc"
};
static const size_t NK = sizeof KS / sizeof *KS;
static std::vector<int> &known() { static std::vector<int> v; if (v.empty()) for (size_t i = 0; i < NK; i++) if (*KS[i].id && KS[i].c != MISSING && KS[i].cpp != MISSING) v.push_back((int)i); return v; }
// One direction of a conversion between two constants, through the C constants and the C++ constants.
static void conv(const K &f, const K &t, const bytes &in, int fl) {
    Enc &ef = enc(f.id), &et = enc(t.id); std::string what = fmt("%s to %s%s, input %s", f.name, t.name, fl ? ", discarding" : "", hex(in).c_str());
    Result w = run(REF, ef, et, fl, in); bool ok = !w.status && w.flush == 0;
    reiconv_t cd = SUT.open(f.c, t.c, fl); if ((long)cd == -1 || !cd) fail("%s: opening by the C constants fails", what.c_str());
    char *p = nullptr; size_t n = 0; int r = SUT.convert(cd, in.data(), in.size(), &p, &n); bytes o; if (r == 0) { o.assign(p, n); free(p); } SUT.close(cd);
    if ((r == 0) != ok || (ok && o != w.out)) fail("%s: the C constants give %s, expected %s", what.c_str(), r ? "an error" : hex(o).c_str(), ok ? hex(w.out).c_str() : "an error");
    bool cok = true; bytes c; try { InLib l; c = reiconv::convert((reiconv::Encodings)f.cpp, (reiconv::Encodings)t.cpp, in, (reiconv::ConvertFlag)fl); } catch (std::exception &) { cok = false; }
    if (cok != ok || (ok && c != w.out)) fail("%s: the C++ constants give %s, expected %s", what.c_str(), cok ? hex(c).c_str() : "an exception", ok ? hex(w.out).c_str() : "an exception");
    label(ok ? "converted" : "refused"); if (in.size() > 1) nontrivial(hash_str(in, hash_str(f.name, hash_str(t.name, fl)))); sample(what);
}
SWEEP(c22_const, "c22_const", NK) {
    const K &k = KS[I];
    if (k.c != k.cpp) fail("the constant %s is %d in C and %d in C++ (%d: missing)", k.name, k.c, k.cpp, MISSING);
    if (k.c == MISSING) fail("the constant %s is missing", k.name);
    Enc *e = nullptr;
    if (*k.id) e = &enc(k.id);
    else { int c = SUT.lookup(k.name); if (c != k.c) fail("the new constant %s is %d, its name looks up to %d", k.name, k.c, c); return; }
    if (k.c != e->sut) fail("the constant %s is %d, the encoding %s has the index %d", k.name, k.c, e->names[0].c_str(), e->sut);
    for (auto &n : e->names) { int x = SUT.lookup(n.c_str()); if (x != k.c) fail("the constant %s is %d, the name %s looks up to %d", k.name, k.c, n.c_str(), x); evals(1); }
    Src S; S.st = mix(base_seed(), I); static const K *u8 = nullptr; if (!u8) for (auto &x : KS) if (!strcmp(x.name, "UTF8")) u8 = &x;
    // All of the repertoire, both ways.
    text all; for (uint32_t c = 1; c < 0x110000; c++) if (e->rep.has(c)) { all.push_back(c); if (all.size() == 512) { if (u8) { conv(*u8, k, ref_encode(enc("utf8"), all), 1); conv(k, *u8, ref_encode(*e, all), 1); } all.clear(); evals(2); } }
    if (u8) { conv(*u8, k, ref_encode(enc("utf8"), all), 1); conv(k, *u8, ref_encode(*e, all), 1); for (int i = 0; i < 20; i++) conv(k, *u8, gen_bytes(S, *e, 20), i & 1); }
    nontrivial(hash_str(k.name));
}
CASE(c22_conv, "c22_conv") {
    const K &f = KS[S.pick(known())], &t = KS[S.pick(known())]; Enc &ef = enc(f.id), &et = enc(t.id); bytes in;
    switch (S.draw(3)) { case 0: in = gen_bytes(S, ef, 20); break; case 1: in = gen_valid(S, ef, 20); break; default: { text k; for (auto c : gen_text(S, et, 12)) if (ef.rep.has(c)) k.push_back(c); in = ref_encode(ef, k); } }
    conv(f, t, in, S.draw(2));
}
