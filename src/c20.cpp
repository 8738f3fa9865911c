// C20: running out of memory is reported. For each generated call every allocation index is made to fail, alone and with all later ones.
#include "stream.hpp"
#include <cppp/reiconv.h>
#include <cppp/reiconv.hpp>
#include <iconv.h>
#include <new>
#include <stdexcept>
#include <system_error>
#undef iconv
using namespace vp;
static int cp_of(Enc &e) { static const std::pair<int, const char *> v[] = {{65001, "utf8"}, {1252, "cp1252"}, {1201, "ucs2be"}, {367, "ascii"}, {932, "cp932"}}; for (auto &p : v) if (e.id == p.second) return p.first; return 65001; }
enum { OPEN_INDEX, OPEN_NAME, OPEN_CP, OPEN_ICONV, LOOKUP, SIZE, FIXED, ALLOC_NEW, ALLOC_BLOCK, STREAM, CXX, CXX_NAME, KINDS };
static const char *KN[] = {"open by index", "open by name", "open by code page", "iconv open", "lookup", "size prediction", "fixed-size conversion", "allocating conversion", "allocating conversion into a block", "conversion call", "C++ conversion", "C++ encoding by name"};
struct Case { int kind; Enc *f, *t; int fl; bytes in; std::string a, b; size_t blk; };
struct Got { bool ok = true, oom = false; int err = 0; long long v = 0; bytes out; bool operator==(const Got &o) const { return ok == o.ok && (ok ? v == o.v && out == o.out : err == o.err); } };
// Makes the call once; *pp is the caller's block and descriptor cd belongs to the case.
static Got act(const Case &c, void *cd) {
    Got g; errno = 0;
    auto opened = [&](void *h) { g.err = errno; g.ok = h != (void *)-1; if (!h) fail("%s returns a null descriptor", KN[c.kind]); if (g.ok) { Call r = call(SUT, h, c.in.data(), c.in.size(), ample(c.in.size())); g.out = r.out; g.v = (long long)r.used; SUT.close(h); } };
    switch (c.kind) {
    case OPEN_INDEX: opened(SUT.open(c.f->sut, c.t->sut, c.fl)); break;
    case OPEN_NAME: opened(SUT.open_name(c.a.c_str(), c.b.c_str(), c.fl)); break;
    case OPEN_CP: opened(SUT.open_cp(cp_of(*c.f), cp_of(*c.t), c.fl)); break;
    case OPEN_ICONV: opened(SUT.open_iconv((c.b + (c.fl ? "//IGNORE" : "")).c_str(), c.a.c_str())); break;
    case LOOKUP: g.v = SUT.lookup(c.a.c_str()) * 1000 + SUT.lookup_cp(cp_of(*c.f)); break;
    case SIZE: g.v = (long long)SUT.result_size(cd, c.in.data(), c.in.size()); g.err = errno; g.ok = g.v != -1; break;
    case FIXED: { bytes b(c.blk, 'x'); g.v = SUT.static_size(cd, c.in.data(), c.in.size(), &b[0], b.size()); g.err = errno; g.ok = g.v != -1; if (g.ok) g.out = b; break; }
    case ALLOC_NEW: case ALLOC_BLOCK: {
        char *blk = nullptr; if (c.kind == ALLOC_BLOCK) { long f0 = 0; (void)f0; blk = (char *)malloc(c.blk + 1); memset(blk, 0x33, c.blk + 1); }
        char *p = blk; size_t n = 777; g.v = SUT.convert(cd, c.in.data(), c.in.size(), &p, &n); g.err = errno; g.ok = g.v == 0; if (g.ok) { if (!p) fail("%s succeeds without a block", KN[c.kind]); g.out.assign(p, n); free(p); }
        else { if (p && p != blk) fail("%s: a failed call leaves a block that is neither the caller's nor cleared", KN[c.kind]); if (p) { for (size_t i = 0; i <= c.blk; i++) if (p[i] != 0x33) fail("%s: a failed call changed the caller's block", KN[c.kind]); free(p); } }
        break; }
    case STREAM: { Call r = call(SUT, cd, c.in.data(), c.in.size(), c.blk + 4); g.out = r.out; g.v = (long long)r.used * 4 + (r.ret == (size_t)-1); g.err = 0; Call s = call(SUT, cd, nullptr, 0, 64, true); g.out += s.out; SUT.iconv(cd, nullptr, nullptr, nullptr, nullptr); break; }
    default:
        try { if (c.kind == CXX) { std::string r; { InLib l; r = reiconv::convert((reiconv::Encodings)c.f->sut, (reiconv::Encodings)c.t->sut, c.in, (reiconv::ConvertFlag)c.fl); } g.out.assign(r.data(), r.size()); } else { InLib l; reiconv::Encoding x(c.a.c_str()), y(c.b.c_str()); g.v = (int)x * 1000 + (int)y; } }
        catch (std::system_error &x) { g.ok = false; g.err = x.code().value(); } catch (std::bad_alloc &) { g.ok = false; g.err = ENOMEM; } catch (std::invalid_argument &) { g.ok = false; g.err = EINVAL; } catch (std::exception &) { g.ok = false; g.err = -2; } catch (...) { g.ok = false; g.err = -3; }
    }
    return g;
}
static void one(const Case &c) {
    const bool own = c.kind >= SIZE && c.kind <= STREAM; std::string what = fmt("%s, %s, flags %d, input %s", KN[c.kind], pairname(*c.f, *c.t).c_str(), c.fl, hex(c.in).c_str()); if (c.kind == OPEN_NAME || c.kind == CXX_NAME || c.kind == OPEN_ICONV || c.kind == LOOKUP) what += " (" + c.a.substr(0, 80) + ", " + c.b.substr(0, 80) + ")";
    void *cd = own ? xopen(SUT, *c.f, *c.t, c.fl) : nullptr; bool bomsrc = c.f->bom;
    // Without failures: the expected result and the number of allocations.
    mem::reset(); Got want = act(c, cd); long n = mem::allocs(); if (mem::live()) fail("%s: leaks %ld blocks", what.c_str(), mem::live()); long inj = 0;
    for (long k = 1; k <= n && k < 40; k++) for (int all = 0; all < 2; all++) {
        if (bomsrc && own) { SUT.close(cd); cd = xopen(SUT, *c.f, *c.t, c.fl); }
        mem::reset(); mem::set_fail(k, all); Got g = act(c, cd); bool hit = mem::failed(); mem::set_fail(0, false); evals(1);
        if (mem::live()) fail("%s: with allocation %ld%s failing, leaks %ld blocks", what.c_str(), k, all ? " and all later ones" : "", mem::live());
        if (hit) { inj++;
            if (g.ok) { if (!(g == want)) fail("%s: with allocation %ld%s failing, the call succeeds with a wrong result", what.c_str(), k, all ? " and all later ones" : ""); }
            else if (g.v != -1 && (c.kind == SIZE || c.kind == FIXED || c.kind == ALLOC_NEW || c.kind == ALLOC_BLOCK)) fail("%s: with allocation %ld%s failing, the call returns %lld instead of -1", what.c_str(), k, all ? " and all later ones" : "", g.v);
            else if (g.err != ENOMEM && !(!want.ok && g.err == want.err)) fail("%s: with allocation %ld%s failing, the call reports error %d instead of out of memory", what.c_str(), k, all ? " and all later ones" : "", g.err); }
        else if (!(g == want)) fail("%s: repeating the call gives another result", what.c_str());
        // Memory is available again: the same call on the same descriptor.
        mem::reset(); Got r = act(c, cd); if (!(r == want)) fail("%s: after out of memory (allocation %ld%s), the same call gives %s, error %d, output %s; expected %s, error %d, output %s", what.c_str(), k, all ? " and later" : "", r.ok ? "success" : "failure", r.err, hex(r.out).c_str(), want.ok ? "success" : "failure", want.err, hex(want.out).c_str());
        if (mem::live()) fail("%s: leaks %ld blocks after an earlier failure", what.c_str(), mem::live());
    }
    if (own) SUT.close(cd);
    // The plain result is right, too.
    if (want.ok && (c.kind == ALLOC_NEW || c.kind == ALLOC_BLOCK || c.kind == CXX)) { Result w = run(REF, *c.f, *c.t, c.fl, c.in); if (want.out != w.out) fail("%s: gives %s, expected %s", what.c_str(), hex(want.out).c_str(), hex(w.out).c_str()); }
    label(KN[c.kind]); if (inj) { nontrivial(hash_str(c.in, mix(c.kind * 65536 + c.f->idx * 256 + c.t->idx, hash_str(c.a)))); label("failures injected"); } sample(what + fmt(": %ld allocations", n));
}
static Case gen(Src &S, int kind) {
    Case c{kind, &gen_enc(S), &gen_enc(S), (int)(S.draw(3) == 0), {}, {}, {}, 0}; text x; for (auto u : gen_text(S, *c.t, 12)) if (c.f->rep.has(u)) x.push_back(u); c.in = S.draw(4) ? ref_encode(*c.f, x) : gen_bytes(S, *c.f, 16); if (S.flip(1, 12)) c.in = amplify(S, c.in, 10000);
    c.a = S.pick(c.f->names); c.b = S.pick(c.t->names); if (S.draw(5) == 0) (S.draw(2) ? c.a : c.b) += "?"; if (S.draw(6) == 0) c.a = std::string(S.draw(300), '-') + c.a; c.blk = S.draw(2) ? S.draw(60) : c.in.size() * 4 + S.draw(8); if (kind == OPEN_CP) { c.f = &enc(S.draw(2) ? "cp1252" : "utf8"); c.t = &enc(S.draw(2) ? "ascii" : "cp932"); } return c;
}
CASE(c20_fail, "c20_fail") { if (!mem::can_fail) throw Discard{}; one(gen(S, (int)S.draw(KINDS))); }
// Every pair of encodings, in the calls that allocate.
SWEEP(c20_pairs, "c20_pairs", E.size() * E.size()) {
    Src S; S.st = mix(base_seed(), I); Enc &f = E[I / E.size()], &t = E[I % E.size()];
    for (int kind : {OPEN_INDEX, OPEN_NAME, ALLOC_NEW, ALLOC_BLOCK, CXX}) { Case c = gen(S, kind); c.f = &f; c.t = &t; c.a = f.names[0]; c.b = t.names[0]; text x; for (auto u : gen_text(S, t, 6)) if (f.rep.has(u)) x.push_back(u); c.in = ref_encode(f, x); one(c); }
}
// The same for the calls of one interface only (C14: the C++ calls; C13: the allocating conversion).
CASE(c20_cxx, "c20_cxx") { if (!mem::can_fail) throw Discard{}; one(gen(S, S.draw(3) ? CXX : CXX_NAME)); }
CASE(c20_alloc, "c20_alloc") { if (!mem::can_fail) throw Discard{}; one(gen(S, S.draw(2) ? ALLOC_BLOCK : ALLOC_NEW)); }
