// Helpers shared by the checks.
#pragma once
#include "vp.hpp"
#include <algorithm>
#include <memory>
#include <set>
namespace vp {

inline bytes operator""_b(const char *s, size_t n) { return bytes(s, n); }
inline uint64_t mix(uint64_t a, uint64_t b) { uint64_t x[2] = {a, b}; return hash_bytes(x, 16); }

// A scalar PRNG for sampling inside sweeps: a pure function of the seed and the item.
struct Rng { uint64_t s; explicit Rng(uint64_t seed) : s(seed) {} uint32_t operator()(uint32_t n) { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; z ^= z >> 31; return (uint32_t)((z >> 32) * n >> 32); } };

// Prefixes that bring the encoder of e into its different states.
inline std::vector<text> enc_contexts(const Enc &e, bool deep) {
    std::vector<text> v{{}};
    std::set<text> seen{{}};
    auto add = [&](const text &t) { if (seen.insert(t).second) v.push_back(t); };
    if (e.stateful || e.composing) for (uint32_t r : e.reprs) add({r});
    else { size_t k = 0; for (uint32_t r : e.reprs) if (k++ < 3) add({r}); }
    if (e.stateful || e.composing) for (auto &c : e.combos) if (c.size() < 3) add(c);
    if (e.stateful && (deep || e.reprs.size() < 12)) for (uint32_t a : e.reprs) for (uint32_t b : e.reprs) if (a != b) add({a, b});
    else if (e.stateful) for (size_t i = 0; i < e.reprs.size(); i++) { add({e.reprs[i], e.reprs[(i + 3) % e.reprs.size()]}); add({e.reprs[i], '\n'}); }
    return v;
}
// Prefixes that bring the decoder of e into its different states.
inline std::vector<bytes> dec_contexts(Enc &e, bool deep) {
    std::vector<bytes> v{""}; std::set<bytes> seen{""};
    auto add = [&](const bytes &b) {
        if (b.empty() || b.size() > 24 || !seen.insert(b).second) return;
        Result r = run(REF, e, E[PIV], 0, b, false);
        if (r.status == 0) v.push_back(b);
    };
    for (auto &t : enc_contexts(e, deep)) { add(ref_encode(e, t, false)); }
    if (e.stateful || e.composing || e.bom) {
        for (auto &t : e.toks) add(t);
        if (deep) for (auto &a : e.toks) for (auto &b : e.toks) if (a.size() + b.size() < 12) add(a + b);
    }
    return v;
}

// Repeats a fragment up to an interesting total length (buffer-size boundaries).
template <class T> T amplify(Src &S, const T &unit, size_t maxlen) {
    static const size_t lens[] = {31, 64, 127, 128, 255, 256, 257, 511, 1023, 1024, 1025, 2047, 2048, 4090, 4095, 4096, 4097, 4100, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65540, 100000, 300000};
    T r; if (unit.empty()) return r;
    size_t n = 0, k = 0; while (k < sizeof lens / sizeof *lens && lens[k] <= maxlen) k++;
    n = k ? lens[S.draw((uint32_t)k)] : maxlen;
    n += S.draw(4);
    while (r.size() < n) r.insert(r.end(), unit.begin(), unit.end());
    if (r.size() > n && S.draw(2)) r.resize(n);
    return r;
}

// Short texts whose sequences drive the encoder of e through its states, and byte fragments that do so for its decoder.
inline std::vector<text> text_elems(Enc &e, size_t max) {
    std::vector<text> v; std::set<text> seen;
    auto add = [&](const text &t) { text b; for (uint32_t c : t) { if (!e.has(b, c) && !(c >> 7 == 0xE0000 >> 7 && e.id == "iso2022_jp2")) return; b.push_back(c); } if (v.size() < max && seen.insert(t).second) v.push_back(t); };
    for (uint32_t r : e.reprs) add({r});
    add({'\n'}); add({'\r'}); add({'a'});
    if (e.id == "hz" || e.id == "utf7") for (uint32_t c : {'~', '{', '+', '-', '/', '\\'}) add({c});
    if (e.id == "iso2022_jp2") for (auto &t : {text{0xE0001, 0xE006A, 0xE0061}, text{0xE0001, 0xE006B, 0xE006F}, text{0xE0001, 0xE007A, 0xE0068}, text{0xE007F}}) add(t);
    for (auto &c : e.combos) add(c);
    return v;
}
inline std::vector<bytes> tok_elems(Enc &e) {
    std::vector<bytes> v; std::set<bytes> seen;
    auto add = [&](const bytes &b) { if (!b.empty() && seen.insert(b).second) v.push_back(b); };
    for (auto &t : e.toks) add(t);
    if (e.stateful) for (auto &b : {"\n"_b, "\r"_b, "A"_b, "0!"_b, "\x21\x21"_b}) add(b);
    else if (e.unit == 1) add("A"_b);
    return v;
}

// The repertoire of e for a sweep: all of it, or for the full-Unicode encodings on quick the BMP and a sample of the other planes.
inline std::vector<uint32_t> rep_list(const Enc &e, Rng &rng, uint32_t bmp_step = 1, uint32_t step = 61) {
    std::vector<uint32_t> v;
    for (uint64_t i = 0; i < e.rep.n;) { uint32_t c = e.rep.at(i); v.push_back(c); uint32_t st = !e.full || thorough() ? 1 : c < 0x10000 ? bmp_step : step; i += st > 1 ? 1 + rng(2 * st - 1) : 1; }
    return v;
}

// Text lengths at which counters and buffers might turn over.
inline const std::vector<size_t> &edge_lengths() {
    static std::vector<size_t> v; if (v.empty()) { for (size_t n = 0; n <= 300; n++) v.push_back(n); for (size_t p = 512; p <= 131072; p *= 2) for (int d = p <= 8192 ? -3 : -1; d <= (p <= 8192 ? 3 : 1); d++) v.push_back(p + d); v.push_back(1000); v.push_back(10000); v.push_back(100000); }
    return v;
}
// A long text over e: one character, two in turn, or a mixture.
inline text long_text(const Enc &e, const RangeSet &R, size_t n, int kind, uint64_t seed) {
    Rng rng(seed); text pool; for (uint32_t r : e.reprs) if (R.has(r)) pool.push_back(r); for (int k = 0; k < 4; k++) pool.push_back(R.at(rng((uint32_t)R.n)));
    uint32_t a = pool[rng((uint32_t)pool.size())], b = pool[rng((uint32_t)pool.size())]; if (kind == 0 && R.has('a')) a = 'a'; text t(n);
    for (size_t i = 0; i < n; i++) t[i] = kind < 2 ? a : kind == 2 ? (i & 1 ? b : a) : pool[rng((uint32_t)pool.size())];
    return t;
}

inline std::string pairname(const Enc &f, const Enc &t) { return f.names[0] + " -> " + t.names[0]; }
} // namespace vp
