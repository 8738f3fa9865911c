// C19: no input or call sequence corrupts memory, crashes or hangs. Decided by sanitizers, guard pages and the worker's CPU allowance;
// every call must consume input, produce output or report an error.
#include "stream.hpp"
#include <cppp/reiconv.h>
#include <cppp/reiconv.hpp>
using namespace vp;
static std::string anyname(Src &S) {
    Enc &e = gen_enc(S); std::string n = S.pick(e.names);
    switch (S.draw(9)) { case 0: case 1: return n; case 2: return n + "//IGNORE"; case 3: return n + "//TRANSLIT//ignore"; case 4: { std::string s; for (size_t k = gen_len(S, 80); k--;) s += (char)(1 + S.draw(255)); return s; } case 5: { static const size_t l[] = {1, 30, 44, 45, 46, 47, 48, 49, 63, 64, 65, 127, 255, 256, 1000, 5000}; return std::string(l[S.draw(16)], (char)(1 + S.draw(255))); } case 6: return n + std::string(S.draw(100), "/-_X"[S.draw(4)]); case 7: return std::string(S.draw(100), '-') + n + (S.draw(2) ? "//IGNORE" : ""); default: n[S.draw((uint32_t)n.size())] = (char)(1 + S.draw(255)); return n; }
}
// Exactly sized copies on the heap, so that the sanitizer sees every access beyond them.
struct Heap { char *p; explicit Heap(const std::string &s, bool z) { p = (char *)malloc(s.size() + z + !s.size()); memcpy(p, s.data(), s.size()); if (z) p[s.size()] = 0; } ~Heap() { free(p); } };
static bytes anybytes(Src &S, Enc &f, Enc &t) {
    bytes b; switch (S.draw(4)) { case 0: { text x; for (auto c : gen_any(S, t, 12)) if (f.rep.has(c)) x.push_back(c); b = ref_encode(f, x); if (S.draw(3) == 0) b = mutate(S, f, b); break; } default: b = gen_bytes(S, f, 24); } 
    if (S.flip(1, 40)) b = amplify(S, b, 9000); return b;
}
CASE(c19_calls, "c19_calls") {
    struct D { void *cd; Enc *f, *t; int dead; }; std::vector<D> ds; size_t n = 1 + S.draw(24); std::string log; uint64_t h = 0; size_t convs = 0; mem::reset();
    for (size_t k = 0; k < n; k++) {
        uint32_t what = ds.empty() ? S.draw(4) : S.draw(16);
        switch (what) {
        case 0: { Enc &f = gen_enc(S), &t = gen_enc(S); void *cd = xopen(SUT, f, t, S.draw(3) == 0); ds.push_back({cd, &f, &t, 0}); log += pairname(f, t) + "; "; break; }
        case 1: { std::string a = anyname(S), b = anyname(S); Heap x(a, true), y(b, true); void *cd; switch (S.draw(3)) { case 0: cd = SUT.open_iconv(x.p, y.p); break; case 1: cd = SUT.open_name(x.p, y.p, S.draw(2)); break; default: cd = SUT.open_cp((int)S.draw(70000) - 100, S.draw(2) ? 65001 : (int)(S.draw(65536) << 16), S.draw(2)); } if (!cd) fail("an open call returns a null descriptor"); if (cd != (void *)-1) { if (S.draw(2)) SUT.close(cd); else ds.push_back({cd, &gen_enc(S), &gen_enc(S), 0}); } h = hash_str(a, h); break; }
        case 2: { std::string a = anyname(S); Heap x(a, true); std::vector<char> out(a.size() + 1); { size_t l = SUT.canon(x.p, out.data()); if (l > a.size()) fail("canonicalising a name of %zu bytes returns length %zu", a.size(), l); } SUT.lookup(x.p); SUT.lookup_cp((int)((S.draw(65536) << 16) | S.draw(65536))); break; }
        case 3: { std::string a = anyname(S), b = anyname(S); Heap x(a, true), y(b, true); Enc &f = gen_enc(S), &t = gen_enc(S); bytes in = anybytes(S, f, t); try { InLib l; std::string r = S.draw(2) ? reiconv::convert((reiconv::Encodings)f.sut, (reiconv::Encodings)t.sut, in, (reiconv::ConvertFlag)S.draw(2)) : reiconv::convert(reiconv::Encoding(x.p), reiconv::Encoding(y.p), in); } catch (std::exception &) {} h = hash_str(in, h); break; }
        case 4: { size_t i = S.draw((uint32_t)ds.size()); if (SUT.close(ds[i].cd)) fail("closing fails"); ds.erase(ds.begin() + i); break; }
        case 5: { D &d = ds[S.draw((uint32_t)ds.size())]; call(SUT, d.cd, nullptr, 0, S.draw(2) ? 64 : S.draw(10), true); break; }
        case 6: { D &d = ds[S.draw((uint32_t)ds.size())]; char *np = nullptr; size_t z = S.draw(2) ? 0 : 100; if (S.draw(2)) SUT.iconv(d.cd, nullptr, nullptr, nullptr, nullptr); else { char *ni = nullptr; size_t zi = S.draw(2) ? 0 : 7; SUT.iconv(d.cd, &ni, &zi, &np, &z); } break; }
        case 7: case 8: { D &d = ds[S.draw((uint32_t)ds.size())]; bytes in = anybytes(S, *d.f, *d.t); Heap x(in, false); size_t m = SUT.result_size(d.cd, x.p, in.size()); if (S.draw(2)) { size_t cap = m != (size_t)-1 && S.draw(2) ? m : S.draw(40); if (S.draw(3) == 0 && cap) cap--; std::string o(cap, 0); Heap y(o, false); SUT.static_size(d.cd, x.p, in.size(), y.p, cap); } h = hash_str(in, h); convs++; break; }
        case 9: { D &d = ds[S.draw((uint32_t)ds.size())]; bytes in = anybytes(S, *d.f, *d.t); Heap x(in, false); char *p = nullptr; size_t l = 0; InLib li; if (S.draw(3) == 0) p = (char *)malloc(1 + S.draw(50)); if (S.draw(12) == 0) { if (SUT.convert(d.cd, x.p, in.size(), nullptr, &l) != -1) fail("an allocating conversion without a result pointer succeeds"); } else SUT.convert(d.cd, x.p, in.size(), &p, &l); free(p); h = hash_str(in, h); convs++; break; }
        default: { D &d = ds[S.draw((uint32_t)ds.size())]; bytes in = anybytes(S, *d.f, *d.t); size_t cap = S.draw(2) ? ample(in.size()) : S.draw(S.draw(4) ? 12 : 300); size_t pos = 0; int calls = 1 + S.draw(4);
            for (int c = 0; c < calls; c++) { Call r = call(SUT, d.cd, in.data() + pos, in.size() - pos, cap); pos += r.used; if (pos < in.size() && cap > 0 && r.ret != (size_t)-1 && !r.used && r.out.empty()) fail("%s: a conversion call with %zu input bytes and %zu bytes of room does nothing and reports success", pairname(*d.f, *d.t).c_str(), in.size() - pos, cap); if (r.err == EILSEQ && S.draw(2)) pos = std::min(in.size(), pos + 1 + S.draw(4)); if (pos >= in.size()) break; }
            h = hash_str(in, mix(h, cap)); convs++; break; }
        }
    }
    for (auto &d : ds) if (SUT.close(d.cd)) fail("closing fails");
    if (mem::available && mem::live()) fail("%ld blocks are left after closing everything", mem::live());
    if (convs) nontrivial(h); label(convs ? "with conversions" : "without conversions"); sample(fmt("%zu operations on ", n) + log);
}
// Raw bytes through every pair of encodings: every byte value at every small position.
SWEEP(c19_pairs, "c19_pairs", E.size() * E.size()) {
    Enc &f = E[I / E.size()], &t = E[I % E.size()]; Src S; S.st = mix(base_seed(), I);
    for (int k = 0; k < (thorough() ? 60 : 4); k++) { bytes in = anybytes(S, f, t); if (in.size() > 600) in.resize(600); Cd cd(SUT, f, t, k & 1); size_t cap = k < 2 ? ample(in.size()) : S.draw(20); size_t pos = 0; for (int c = 0; c < 6 && pos <= in.size(); c++) { Call r = call(SUT, cd, in.data() + pos, in.size() - pos, cap); pos += r.used; if (r.err == EILSEQ) pos++; if (r.ret != (size_t)-1 || pos >= in.size()) break; } call(SUT, cd, nullptr, 0, S.draw(12), true); evals(1); if (in.size() > 1 && k == 0) nontrivial(hash_str(in, I)); }
    label("pairs");
}
// Every code point into every encoding, and every two-byte unit (longer where the encoding asks for more) out of it, in every decoder state:
// reads beyond the conversion tables show only for the very code that is looked up.
SWEEP(c19_codes, "c19_codes", E.size() * 34) {
    Enc &t = E[I / 34]; uint32_t part = I % 34, lo = part < 17 ? part << 16 : 0, hi = part < 17 ? lo + 65536 : 0; Rng rng(mix(base_seed(), I)); Cd cd(SUT, E[PIV], t, 0); static thread_local std::vector<char> room(1 << 16);
    std::vector<uint32_t> v; if (part < 17) for (uint32_t c = lo; c < hi; c++) v.push_back(c); else for (int k = 0; k < 600; k++) { int b = rng(32); v.push_back((uint32_t)((1ull << b) + rng(9) - 4)); }
    auto ctx = enc_contexts(t, false); const text &pre = ctx[part < 17 ? 0 : rng((uint32_t)ctx.size())];
    for (uint32_t c : v) {
        if (part >= 17 || (c & 0xFF) == 0) { SUT.iconv(cd, nullptr, nullptr, nullptr, nullptr); bytes p = pack(pre); char *i = (char *)p.data(), *o = room.data(); size_t n = p.size(), m = room.size(); SUT.iconv(cd, &i, &n, &o, &m); }
        bytes x = pack(text{c}); char *i = (char *)x.data(), *o = room.data(); size_t n = 4, m = rng(16) ? 64 : rng(8); size_t was = m, r = SUT.iconv(cd, &i, &n, &o, &m); evals(1);
        if (n != 0 && n != 4) fail("%s, U+%04X: %zu of 4 bytes are left", pairname(E[PIV], t).c_str(), c, n); if (!n && was == 64 && r != (size_t)-1) nontrivial(hash_str(x, t.idx)); else if (n && r != (size_t)-1) fail("%s, U+%04X: neither progress nor an error", pairname(E[PIV], t).c_str(), c);
        if (n && errno == EINVAL) fail("%s, U+%04X: called incomplete", pairname(E[PIV], t).c_str(), c);
        if (n || (c & 1)) SUT.iconv(cd, nullptr, nullptr, nullptr, nullptr);
    }
    label("code points", v.size()); if (I % 34 == 3) sample("every code point into " + t.names[0]);
}
SWEEP(c19_units, "c19_units", E.size() * 256) {
    Enc &f = E[I / 256]; int b0 = I % 256; Rng rng(mix(base_seed(), I)); auto ctx = dec_contexts(f, false); size_t nc = f.stateful || f.composing ? ctx.size() : 1; if (nc > 20 && !thorough()) nc = 20; Cd cd(SUT, f, E[PIV], 0);
    bytes buf; bool tail = false;
    auto feed = [&](const bytes &pre, const bytes &u) { // the error of a call on pre + u, in a block of exactly that size
        bytes in = pre + u; Heap x(in, false); char *i = x.p, out[256], *o = out; size_t n = in.size(), m = sizeof out; SUT.iconv(cd, nullptr, nullptr, nullptr, nullptr); size_t r = SUT.iconv(cd, &i, &n, &o, &m); int e = r == (size_t)-1 ? errno : 0; tail = e == EINVAL && n <= u.size();
        evals(1); if (!e && n) fail("%s, input %s: %zu bytes left without an error", pairname(f, E[PIV]).c_str(), hex(in).c_str(), n); if (!e) nontrivial(hash_str(in, f.idx)); return e; };
    std::function<void(const bytes &, bytes)> ext = [&](const bytes &pre, bytes u) { bool sampled = u.size() >= 3 || (u.size() >= 2 && (f.stateful || f.unit > 1)); int k0 = rng(16); for (int b = 0; b < 256; b++) { if (sampled && (b & 15) != k0 && !(b >= '0' && b <= '9' && f.id.rfind("gb18030", 0) == 0 && rng(4) == 0)) continue; bytes v = u + (char)b; feed(pre, v); if (tail && v.size() < 5) ext(pre, v); } };
    for (size_t c = 0; c < nc; c++) { if (c && f.unit > 1) break; const bytes &pre = ctx[c]; feed(pre, bytes(1, (char)b0)); if (tail || f.composing || f.stateful) for (int b = 0; b < 256; b++) { bytes u{(char)b0, (char)b}; feed(pre, u); if (tail) ext(pre, u); } }
    if (b0 == 0x81) sample("every two-byte unit of " + f.names[0]);
}
#ifdef VP_FUZZ
// libFuzzer entry: the fuzzer's bytes are the choices of the case.
extern "C" int LLVMFuzzerInitialize(int *, char ***) { load_encodings(); return 0; }
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
    Src S; S.fz = d; S.nfz = n;
    try { c19_calls(S); } catch (Fail &f) { fprintf(stderr, "FAIL %s\n", f.msg.c_str()); abort(); } catch (Discard &) {}
    return 0;
}
#endif
