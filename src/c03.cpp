// C03: text that an encoding can represent survives encoding and decoding; decode-encode-decode is stable.
#include "common.hpp"
#include "nfd.inc"
using namespace vp;

// CP1255, CP1258 and TCVN compose and decompose: texts come back canonically equivalent.
static bool canonical(const Enc &e) { return e.id == "cp1255" || e.id == "cp1258" || e.id == "tcvn"; }
static text nfd(const text &t) {
    text r;
    for (uint32_t c : t) { auto it = nfd_map.find(c); if (it == nfd_map.end()) r.push_back(c); else r.insert(r.end(), it->second.begin(), it->second.end()); }
    auto ccc = [](uint32_t c) { auto it = nfd_ccc.find(c); return it == nfd_ccc.end() ? 0 : it->second; };
    for (size_t i = 0; i < r.size();) { if (!ccc(r[i])) { i++; continue; } size_t j = i; while (j < r.size() && ccc(r[j])) j++; std::stable_sort(r.begin() + i, r.begin() + j, [&](uint32_t a, uint32_t b) { return ccc(a) < ccc(b); }); i = j; }
    return r;
}
static bool equal(const Enc &e, const bytes &a, const bytes &b) { return a == b || (canonical(e) && nfd(unpack(a)) == nfd(unpack(b))); }

// What the definition itself says about this text: whether it comes back (canonical composition in CP1255/CP1258/TCVN,
// escapes in C99/JAVA and marks in BOM-sensitive decoders make some texts come back changed).
static bool definition_roundtrips(Enc &e, const text &t) {
    Result a = run(REF, E[PIV], e, 0, pack(t)); if (a.status || a.flush || a.count) return false;
    Result b = run(REF, e, E[PIV], 0, a.out); return !b.status && !b.flush && equal(e, b.out, pack(t));
}
static void there_and_back(Enc &e, const text &t) {
    Result a = run(SUT, E[PIV], e, 0, pack(t)); Result b;
    if (!a.status && !a.flush && !a.count) { b = run(SUT, e, E[PIV], 0, a.out); if (!b.status && !b.flush && !b.count && equal(e, b.out, pack(t))) return; }
    if (!definition_roundtrips(e, t)) { label("excluded by the encoding's definition: " + e.id); return; }
    if (a.status || a.flush || a.count) fail("%s is in the repertoire of %s but encoding it gives %s", show(t).c_str(), e.names[0].c_str(), show(a).c_str());
    fail("%s encoded in %s as %s decodes to %s: %s", show(t).c_str(), e.names[0].c_str(), hex(a.out).c_str(), show(unpack(b.out)).c_str(), show(b).c_str());
}

struct CItem { int e; int ctx; uint64_t lo, hi; };
static std::vector<std::vector<text>> ectx;
static std::vector<CItem> &citems() {
    static std::vector<CItem> v;
    if (v.empty()) {
        ectx.resize(E.size());
        for (auto &e : E) {
            ectx[e.idx] = enc_contexts(e, thorough());
            for (size_t c = 0; c < ectx[e.idx].size(); c++) if (std::all_of(ectx[e.idx][c].begin(), ectx[e.idx][c].end(), [&](uint32_t x) { return e.rt.has(x); })) for (uint64_t lo = 0; lo < e.rt.n; lo += 20000) v.push_back({e.idx, (int)c, lo, std::min<uint64_t>(e.rt.n, lo + 20000)});
        }
    }
    return v;
}
SWEEP(c03_sweep, "c03_sweep", citems().size()) {
    CItem it = citems()[I]; Enc &e = E[it.e]; const text &pre = ectx[it.e][it.ctx]; Rng rng(mix(base_seed(), I));
    uint32_t step = e.full && it.ctx && !thorough() ? 7 : 1;
    for (uint64_t i = it.lo + (step > 1 ? rng(step) : 0); i < it.hi; i += step) {
        text t = pre; t.push_back(e.rt.at(i));
        if (it.ctx) switch (rng(4)) { case 0: break; case 1: if (e.rt.has('A')) t.push_back('A'); break; case 2: if (!e.reprs.empty()) { uint32_t r = e.reprs[rng((uint32_t)e.reprs.size())]; if (e.rt.has(r)) t.push_back(r); } break; default: t.push_back(e.rt.at(std::min<uint64_t>(i + 1 + rng(3), e.rt.n - 1))); }
        there_and_back(e, t); evals(1); nontrivial(hash_str(pack(t), e.idx));
    }
    sample(fmt("%s: characters %llu.. after %s, there and back", e.names[0].c_str(), (unsigned long long)it.lo, show(pre).c_str()));
}
CASE(c03_text, "c03_text") {
    Enc &e = gen_enc(S);
    text t = gen_text_rt(S, e, 50);
    if (S.flip(1, 300)) t = amplify(S, t, 20000);
    there_and_back(e, t);
    label(e.stateful ? "stateful" : e.composing ? "composing" : e.full ? "full Unicode" : e.rep.n > 300 ? "multibyte" : "single-byte");
    if (t.size() > 1) nontrivial(hash_str(pack(t), e.idx));
    sample(e.names[0] + " " + show(t));
}
// Bytes: decode, encode, decode.
CASE(c03_bytes, "c03_bytes") {
    Enc &e = gen_enc(S);
    bytes b = gen_valid(S, e, 50); if (S.flip(1, 300)) b = amplify(S, b, 20000);
    Result d = run(SUT, e, E[PIV], 0, b);
    if (d.status || d.flush) { Result w = run(REF, e, E[PIV], 0, b); if (w.status || w.flush) { label("not valid"); return; } fail("valid %s input %s is rejected: %s", e.names[0].c_str(), hex(b).c_str(), show(d).c_str()); }
    Result g = run(SUT, E[PIV], e, 0, d.out);
    Result h; if (!g.status && !g.flush && !g.count) h = run(SUT, e, E[PIV], 0, g.out);
    label(e.stateful ? "stateful" : e.composing ? "composing" : "other");
    if (d.out.size() > 4) nontrivial(hash_str(b, e.idx));
    sample(e.names[0] + " " + hex(b));
    if (!g.status && !g.flush && !g.count && !h.status && !h.flush && equal(e, h.out, d.out)) return;
    // Does the definition allow it (characters that decode but have no encoding)?
    Result w = run(REF, e, E[PIV], 0, b);
    if (w.status || w.flush) fail("invalid %s input %s is accepted", e.names[0].c_str(), hex(b).c_str());
    if (!definition_roundtrips(e, unpack(w.out))) { label("excluded by the encoding's definition: " + e.id); return; }
    fail("%s input %s decodes to %s; encoding that gives %s, which decodes to %s", e.names[0].c_str(), hex(b).c_str(), show(unpack(d.out)).c_str(), show(g).c_str(), show(h).c_str());
}

// All sequences of representative characters and combinations.
static std::vector<int> &SD() { static std::vector<int> v; if (v.empty()) for (auto &e : E) if (e.stateful || e.composing) v.push_back(e.idx); return v; }
enum { SP = 64 };
SWEEP(c03_states, "c03_states", SD().size() * SP) {
    Enc &e = E[SD()[I / SP]]; size_t part = I % SP; std::vector<text> el; for (auto &x : text_elems(e, 48)) if (std::none_of(x.begin(), x.end(), [](uint32_t c) { return c >> 7 == 0xE0000 >> 7; })) el.push_back(x);
    size_t n = el.size(); Rng rng(mix(base_seed(), I));
    int depth = thorough() || n <= 24 ? 4 : 3; uint64_t total = 1; for (int d = 0; d < depth; d++) total *= n;
    for (uint64_t k = part; k < total; k += SP) {
        text t; uint64_t r = k; for (int d = 0; d < depth; d++, r /= n) t.insert(t.end(), el[r % n].begin(), el[r % n].end());
        there_and_back(e, t); evals(1); nontrivial(hash_str(pack(t), e.idx));
        if (rng(2)) { for (int j = 0; j < 2; j++) { const text &x = el[rng((uint32_t)n)]; t.insert(t.end(), x.begin(), x.end()); } there_and_back(e, t); evals(1); }
    }
    sample(fmt("%s: sequences of %d of %zu short texts, there and back, part %zu", e.names[0].c_str(), depth, n, part));
}

// Long texts.
SWEEP(c03_len, "c03_len", E.size() * 4) {
    Enc &e = E[I / 4]; uint64_t seed = mix(base_seed(), I); text t = long_text(e, e.rt, 140000, I % 4, seed); size_t total = 0;
    for (size_t n : edge_lengths()) { if (n < 300 && n % 8 != I % 8) continue; there_and_back(e, text(t.begin(), t.begin() + n)); total += n; evals(1); if (n > 1) nontrivial(mix(seed, n)); }
    label("characters in long texts", total);
}

// Code points outside the frozen repertoire: if the library encodes one all the same, it has to come back.
enum { PARTS = 17 };
SWEEP(c03_any, "c03_any", E.size() * PARTS) {
    Enc &e = E[I % E.size()]; uint32_t lo = (uint32_t)(I / E.size()) << 16; text lack; auto tag = [](uint32_t c) { return c >> 7 == 0xE0000 >> 7; };
    auto flush = [&] {
        if (lack.empty()) return;
        Result r = run(SUT, E[PIV], e, 1, pack(lack)); evals(lack.size());
        if (r.out.size() || r.count != lack.size()) for (auto c : lack) {
            Result s = run(SUT, E[PIV], e, 0, pack({c})); if (s.status || s.flush || s.count || s.out.empty()) continue;
            Result b = run(SUT, e, E[PIV], 0, s.out); if (b.status || b.flush || !equal(e, b.out, pack({c}))) fail("U+%04X encoded in %s as %s decodes to %s: %s", c, e.names[0].c_str(), hex(s.out).c_str(), show(unpack(b.out)).c_str(), show(b).c_str());
        }
        lack.clear();
    };
    for (uint32_t c = lo; c < lo + 0x10000; c++) if (!e.rep.has(c) && !(c >= 0xD800 && c < 0xE000) && c != 0xFEFF && !tag(c)) { lack.push_back(c); if (lack.size() == 64) flush(); }
    flush(); nontrivial(mix(e.idx, lo)); label("code points outside the repertoire"); sample(fmt("%s: code points of plane %u outside the repertoire", e.names[0].c_str(), lo >> 16));
}

// Every code of one or two bytes, and the longer ones they begin: what is accepted has to be stable.
static void stable(Enc &e, const bytes &b) {
    Result d = run(SUT, e, E[PIV], 0, b); if (d.status || d.flush || d.out.empty()) return;
    evals(1); nontrivial(hash_str(b, e.idx));
    Result g = run(SUT, E[PIV], e, 0, d.out), h; if (!g.status && !g.flush && !g.count) h = run(SUT, e, E[PIV], 0, g.out);
    if (!g.status && !g.flush && !g.count && !h.status && !h.flush && equal(e, h.out, d.out)) return;
    Result w = run(REF, e, E[PIV], 0, b);
    if (!w.status && !w.flush && !definition_roundtrips(e, unpack(w.out))) { label("excluded by the encoding's definition: " + e.id); return; }
    fail("%s input %s decodes to %s; encoding that gives %s, which decodes to %s", e.names[0].c_str(), hex(b).c_str(), show(unpack(d.out)).c_str(), show(g).c_str(), show(h).c_str());
}
static void codes(Enc &e, bytes b, Rng &rng) {
    size_t n = b.size();
    for (int c = 0; c < 256; c++) {
        if (n >= 2 && !(c >= 0x30 && c <= 0x39) && !(n == 2 && e.id.rfind("gb", 0) != 0 && e.rep.n < 100000 && !e.stateful) && rng(24)) continue;
        bytes t = b + (char)c; stable(e, t);
        if (n < 3) { Result r = run(SUT, e, E[PIV], 0, t); if (r.status == EINVAL && !r.consumed) codes(e, t, rng); }
    }
}
static std::vector<int> &BY() { static std::vector<int> v; if (v.empty()) for (auto &e : E) if (e.unit == 1) v.push_back(e.idx); return v; }
SWEEP(c03_codes, "c03_codes", BY().size() * 16) {
    Enc &e = E[BY()[I / 16]]; Rng rng(mix(base_seed(), I));
    for (int c = (int)(I % 16) * 16; c < (int)(I % 16 + 1) * 16; c++) { bytes t(1, (char)c); stable(e, t); for (int d = 0; d < 256; d++) if (e.composing || e.rep.n > 300) stable(e, t + (char)d); Result r = run(SUT, e, E[PIV], 0, t); if (r.status == EINVAL && !r.consumed) codes(e, t, rng); }
    sample(fmt("%s: codes beginning with %02zX..", e.names[0].c_str(), I % 16 * 16));
}
