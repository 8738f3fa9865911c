// C16: encoding names. Oracle: the frozen list of names and aliases, and a canonicalisation written here.
#include "common.hpp"
#include <cppp/reiconv.hpp>
using namespace vp;
static std::unordered_map<std::string, int> &M() { static std::unordered_map<std::string, int> m; if (m.empty()) for (auto &e : E) for (auto &n : e.names) m[n] = e.idx; return m; }
static std::vector<std::string> &N() { static std::vector<std::string> v; if (v.empty()) for (auto &e : E) for (auto &n : e.names) v.push_back(n); return v; }
static std::string canon(const std::string &s) { std::string r; for (char c : s) { if (c >= 'a' && c <= 'z') c = (char)(c - 32); if (c != '-' && c != '_') r += c; } return r; }
static int want(const std::string &s) { auto it = M().find(canon(s)); return it == M().end() ? -1 : it->second; }
static std::string q(const std::string &s) { std::string r = "\""; size_t n = 0; for (unsigned char c : s) { if (n++ > 120) { r += fmt("...(%zu bytes)", s.size()); break; } if (c < 0x20 || c >= 0x7F || c == '"' || c == '\\') r += fmt("\\x%02x", c); else r += (char)c; } return r + "\""; }
static void look(const std::string &s) {
    int w = want(s), g = SUT.lookup(s.c_str()); int x = w < 0 ? -1 : E[w].sut;
    if (g != x) fail("name %s resolves to index %d, expected %d (%s)", q(s).c_str(), g, x, w < 0 ? "unknown" : E[w].names[0].c_str());
}
static void canonical(const std::string &s) {
    std::string w = canon(s); size_t n = s.size() + 1; char *b = (char *)malloc(n + 16); memset(b, 0x5A, n + 16); size_t r = SUT.canon(s.c_str(), b + 8);
    bool bad = r != w.size() || memcmp(b + 8, w.c_str(), w.size() + 1) != 0; for (size_t i = 0; i < 8; i++) if (b[i] != 0x5A) bad = true; for (size_t i = 8 + n; i < n + 16; i++) if (b[i] != 0x5A) bad = true;
    std::string got(b + 8, std::min(r, n)); free(b);
    if (bad) fail("canonicalising %s gives %s and length %zu, expected %s and %zu", q(s).c_str(), q(got).c_str(), r, q(w).c_str(), w.size());
}
// The same through the other functions that take names.
static void everywhere(const std::string &s, const std::string &other) {
    int w = want(s), v = want(other);
    { bool threw = false; int idx = -2; try { idx = (int)reiconv::Encoding(s.c_str()); } catch (std::invalid_argument &) { threw = true; } if (threw != (w < 0) || (!threw && idx != E[w].sut)) fail("reiconv::Encoding(%s) %s", q(s).c_str(), threw ? "throws" : fmt("has index %d", idx).c_str()); }
    { bool threw = false; int idx = -2; try { idx = (int)reiconv::Encoding(s); } catch (std::invalid_argument &) { threw = true; } if (threw != (w < 0) || (!threw && idx != E[w].sut)) fail("reiconv::Encoding(std::string(%s)) %s", q(s).c_str(), threw ? "throws" : fmt("has index %d", idx).c_str()); }
    for (int dir = 0; dir < 2; dir++) {
        const std::string &a = dir ? other : s, &b = dir ? s : other; int x = dir ? v : w, y = dir ? w : v; errno = 0; void *cd = SUT.open_name(a.c_str(), b.c_str(), 0); int e = errno; bool ok = x >= 0 && y >= 0;
        if ((cd != (void *)-1) != ok || (!ok && e != EINVAL)) fail("reiconv_open_from_name(%s, %s) %s, error %d", q(a).c_str(), q(b).c_str(), cd == (void *)-1 ? "fails" : "succeeds", e);
        if (ok) { text t{'A', 0xE9, 0x3B1}; bytes in = ref_encode(E[x], t); Result g = run(SUT, cd, in), r = run(REF, E[x], E[y], 0, in); SUT.close(cd); if (g != r) fail("opened as %s -> %s: %s gives %s, expected %s", q(a).c_str(), q(b).c_str(), hex(in).c_str(), show(g).c_str(), show(r).c_str()); }
        // The iconv way; a slash there begins a suffix, so only names without one.
        if (a.find('/') == std::string::npos && b.find('/') == std::string::npos) { errno = 0; cd = SUT.open_iconv(b.c_str(), a.c_str()); e = errno; if ((cd != (void *)-1) != ok || (!ok && e != EINVAL)) fail("reiconv_open(%s, %s) %s, error %d", q(b).c_str(), q(a).c_str(), cd == (void *)-1 ? "fails" : "succeeds", e); if (ok) SUT.close(cd); }
    }
}
static std::string vary(Src &S, const std::string &n) {
    std::string r; int dash = S.draw(3);
    for (char c : n) { if (dash && S.draw(dash == 1 ? 6 : 2) == 0) { uint32_t k = 1 + (S.flip(1, 200) ? S.draw(3000) : S.draw(3)); while (k--) r += S.draw(2) ? '-' : '_'; } r += c >= 'A' && c <= 'Z' && S.draw(2) ? (char)(c + 32) : c; }
    if (dash && S.draw(3) == 0) r += "-_"[S.draw(2)]; return r;
}
CASE(c16_variants, "c16_variants") { // names in any case and punctuation
    const std::string &n = S.pick(N()); std::string s = vary(S, n), o = vary(S, S.pick(N())); look(s); canonical(s); everywhere(s, o); sample(s); if (s != n) nontrivial(hash_str(s)); label(s.size() > 60 ? "long" : "short");
}
CASE(c16_other, "c16_other") { // other strings
    std::string s;
    switch (S.draw(7)) {
    case 0: { size_t n = gen_len(S, 70); while (n--) s += (char)(1 + S.draw(255)); break; }
    case 1: { size_t n = gen_len(S, 12); static const char al[] = "ISO-8859_12UTFCPWINDOWSMACKOGBEJR:.0123456789abcxyz"; while (n--) s += al[S.draw(sizeof al - 1)]; break; }
    case 2: s = S.pick(N()) + S.pick(N()); break;
    case 3: { s = S.pick(N()); s = s.substr(0, S.draw((uint32_t)s.size() + 1)); break; }
    case 4: { s = S.pick(N()); s = s.substr(S.draw((uint32_t)s.size())); break; }
    case 5: { s = S.pick(N()); uint32_t k = 1 + S.draw(3); while (k--) { size_t p = S.draw((uint32_t)s.size() + 1); switch (S.draw(4)) { case 0: s.insert(p, 1, (char)(1 + S.draw(255))); break; case 1: if (p < s.size()) s[p] = (char)(1 + S.draw(255)); break; case 2: if (p < s.size()) s.erase(p, 1); break; default: if (p + 1 < s.size()) std::swap(s[p], s[p + 1]); } } break; }
    default: { static const size_t lens[] = {44, 45, 46, 47, 48, 49, 50, 55, 63, 64, 65, 100, 127, 128, 255, 256, 1000, 4096, 70000}; size_t n = lens[S.draw(19)] + S.draw(3); std::string u = S.draw(2) ? S.pick(N()) : std::string(1, (char)(1 + S.draw(255))); while (s.size() < n) s += u; if (S.draw(2)) s.resize(n); break; }
    }
    if (S.draw(3) == 0) s = vary(S, s);
    look(s); canonical(s); everywhere(s, S.pick(N())); sample(q(s)); label(want(s) >= 0 ? "known after all" : "unknown"); nontrivial(hash_str(s));
}
// Every single-byte edit of every name, and every name with any one byte around it.
SWEEP(c16_edits, "c16_edits", N().size()) {
    const std::string n = N()[I]; look(n); everywhere(n, N()[(I * 7 + 3) % N().size()]); uint64_t k = 1;
    for (size_t p = 0; p <= n.size(); p++) for (int c = 1; c < 256; c++) {
        std::string s = n; s.insert(p, 1, (char)c); look(s); k++; if (p < n.size()) { s = n; s[p] = (char)c; look(s); canonical(s); k++; }
    }
    for (size_t p = 0; p < n.size(); p++) { std::string s = n; s.erase(p, 1); look(s); if (p + 1 < n.size()) { s = n; std::swap(s[p], s[p + 1]); look(s); s = n; s.erase(p, 2); look(s); } s = n; s.insert(p, 1, n[p]); look(s); k += 3; }
    // Two substitutions of digits or letters.
    static const char al[] = "0123456789ABCDEIKMOPSTUWX:."; for (size_t p = 0; p < n.size(); p++) for (size_t r = p + 1; r < n.size(); r++) for (const char *a = al; *a; a++) for (const char *b = al; *b; b++) { std::string s = n; s[p] = *a; s[r] = *b; int g = SUT.lookup(s.c_str()); k++; if (g != -1 || s.size() < 7) look(s); else if (M().count(s)) look(s); }
    evals(k); nontrivial(hash_str(n)); label("names");
}
// All short strings.
SWEEP(c16_short, "c16_short", 95 * 95) {
    std::string s; s += (char)(32 + I / 95); s += (char)(32 + I % 95); uint64_t k = 0; auto lk = [&] { look(s); k++; };
    if (I % 95 == 0) { std::string z = s.substr(0, 1); look(z); look(""); } lk();
    for (int a = 32; a < 127; a++) { s.resize(2); s += (char)a; lk(); for (int b = 32; b < 127; b++) { s.resize(3); s += (char)b; lk(); } }
    if (thorough()) for (int a = 32; a < 127; a++) for (int b = 32; b < 127; b++) for (int c = 32; c < 96; c++) { s.resize(2); s += (char)a; s += (char)b; s += (char)c; lk(); }
    evals(k); nontrivial(I);
}
// All numbers, bare and behind the usual prefixes.
SWEEP(c16_numbers, "c16_numbers", 1000) {
    static const char *pre[] = {"", "CP", "IBM", "MS", "WINDOWS", "ISO8859", "UTF", "UCS", "KOI8", "MAC", "ISOIR", "CSISOLATIN", "GB", "EUC", "cp-", "x"}; uint64_t k = 0;
    for (size_t v = I; v < (thorough() ? 10000000u : 200000u); v += 1000) for (auto p : pre) { look(p + std::to_string(v)); k++; }
    evals(k); nontrivial(I);
}

// Different names in the same memory, one after the other, and repeated: the answer belongs to the characters, not to the place.
CASE(c16_inplace, "c16_inplace") {
    static thread_local char buf[400]; int n = 2 + S.draw(12); std::vector<std::string> used; uint64_t h = 0;
    for (int k = 0; k < n; k++) {
        std::string s; switch (S.draw(5)) { case 0: case 1: s = vary(S, S.pick(N())); break; case 2: s = S.pick(N()); s[S.draw((uint32_t)s.size())] = (char)('0' + S.draw(43)); break; case 3: if (!used.empty()) { s = S.pick(used); break; } [[fallthrough]]; default: { s = S.pick(N()); size_t p = S.draw((uint32_t)s.size()); bool cut = S.draw(2); s = cut ? s.substr(0, p) : s.substr(p); break; } }
        if (s.size() >= sizeof buf) s.resize(sizeof buf - 1); used.push_back(s); memcpy(buf, s.c_str(), s.size() + 1); h = hash_str(s, h);
        int w = want(s), x = w < 0 ? -1 : E[w].sut, g = SUT.lookup(buf); if (g != x) fail("name %s, the name number %d in the same buffer, resolves to %d, expected %d", q(s).c_str(), k + 1, g, x);
        if (S.draw(3) == 0) { errno = 0; void *cd = SUT.open_name(buf, "UTF-8", 0); if ((cd != (void *)-1) != (w >= 0)) fail("reiconv_open_from_name(%s, UTF-8), the name number %d in the same buffer, %s", q(s).c_str(), k + 1, w < 0 ? "succeeds" : "fails"); if (cd != (void *)-1) { bytes in = ref_encode(E[w], {'A', 0xE9, 0x416, 0x4E00}); Result a = run(SUT, cd, in), b = run(REF, E[w], enc("utf8"), 0, in); SUT.close(cd); if (a != b) fail("opened as %s, the name number %d in the same buffer: %s gives %s, expected %s", q(s).c_str(), k + 1, hex(in).c_str(), show(a).c_str(), show(b).c_str()); } }
        if (S.draw(4) == 0) { bool threw = false; int idx = -2; try { idx = (int)reiconv::Encoding(buf); } catch (std::invalid_argument &) { threw = true; } if (threw != (w < 0) || (!threw && idx != x)) fail("reiconv::Encoding(%s), the name number %d in the same buffer, %s", q(s).c_str(), k + 1, threw ? "throws" : fmt("has index %d", idx).c_str()); }
        if (memcmp(buf, s.c_str(), s.size() + 1)) fail("looking up %s changes the caller's string", q(s).c_str());
    }
    nontrivial(h); label("histories"); sample(q(used[0]) + ", " + q(used[1]) + ", ...");
}
