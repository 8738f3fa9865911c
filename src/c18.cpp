// C18: the iconv-compatible entry points. Oracle: the native interface with the names' frozen meaning, call by call.
#include "stream.hpp"
#include <iconv.h>
using namespace vp;
// Through the macros of iconv.h, as a ported program would call them.
static void *i_open(const char *to, const char *from) { InLib l; return (void *)iconv_open(to, from); }
static size_t i_conv(void *cd, char **a, size_t *b, char **c, size_t *d) { return iconv((iconv_t)cd, a, b, c, d); }
static int i_close(void *cd) { InLib l; return iconv_close((iconv_t)cd); }
#undef iconv
static std::unordered_map<std::string, int> &M() { static std::unordered_map<std::string, int> m; if (m.empty()) for (auto &e : E) for (auto &n : e.names) m[n] = e.idx; return m; }
static std::string canon(const std::string &s) { std::string r; for (char c : s) { if (c >= 'a' && c <= 'z') c = (char)(c - 32); if (c != '-' && c != '_') r += c; } return r; }
static int want(const std::string &s) { auto it = M().find(canon(s)); return it == M().end() ? -1 : it->second; }
static std::string q(const std::string &s) { std::string r = "\""; size_t n = 0; for (unsigned char c : s) { if (n++ > 120) { r += fmt("...(%zu bytes)", s.size()); break; } if (c < 0x20 || c >= 0x7F) r += fmt("\\x%02x", c); else r += (char)c; } return r + "\""; }
static std::string anycase(Src &S, std::string s) { uint32_t m = S.draw(3); for (auto &c : s) if (m == 0 || (m == 2 && S.draw(2))) { if (c >= 'A' && c <= 'Z') c = (char)(c + 32); } return s; }
static std::string name(Src &S, bool known) {
    Enc &e = gen_enc(S); std::string n = S.pick(e.names); if (S.draw(2)) { std::string r; for (char c : n) { if (S.draw(8) == 0) r += "-_"[S.draw(2)]; r += c; } n = anycase(S, r); }
    if (known) return n;
    switch (S.draw(7)) {
    case 0: return ""; case 1: return n + "X"; case 2: return n.substr(0, n.size() / 2) + "?"; case 3: { std::string s; size_t k = gen_len(S, 60); while (k--) { char c = (char)(1 + S.draw(255)); if (c != '/') s += c; } return s; }
    case 4: { static const size_t l[] = {40, 45, 46, 47, 48, 63, 64, 100, 255, 1024, 5000}; return std::string(l[S.draw(11)], (char)('A' + S.draw(26))); }
    case 5: return n + std::string(1 + S.draw(300), n[0]); default: return std::string(S.draw(4000), '-') + n + std::string(S.draw(3), '!');
    }
}
struct Suffix { const char *s; int discard; };
static const Suffix SUF[] = {{"", 0}, {"//IGNORE", 1}, {"//TRANSLIT", 0}, {"//TRANSLIT//IGNORE", 1}, {"//IGNORE//TRANSLIT", 1}};
static void compare(Src &S, void *cd, Enc &f, Enc &t, int fl, const std::string &how) {
    // The same calls on both descriptors.
    Cd n(SUT, f, t, fl); Cd r(REF, f, t, fl); Lib L = SUT; L.iconv = i_conv; int calls = 1 + S.draw(5);
    for (int k = 0; k < calls; k++) {
        if (S.draw(5) == 0) { size_t cap = S.draw(2) ? 64 : S.draw(5); Call a = call(L, cd, nullptr, 0, cap, true), b = call(SUT, n, nullptr, 0, cap, true), c = call(REF, r, nullptr, 0, cap, true); if (a.ret != b.ret || a.err != b.err || a.out != b.out || a.out != c.out || a.ret != c.ret) fail("%s: a reset returns %zd and writes %s, natively %zd and %s", how.c_str(), (ssize_t)a.ret, hex(a.out).c_str(), (ssize_t)b.ret, hex(b.out).c_str()); continue; }
        bytes in = gen_bytes(S, f, 16); size_t cap = S.draw(3) ? ample(in.size()) : S.draw(10); Call a = call(L, cd, in.data(), in.size(), cap), b = call(SUT, n, in.data(), in.size(), cap), c = call(REF, r, in.data(), in.size(), cap);
        if (a.ret != b.ret || a.err != b.err || a.used != b.used || a.out != b.out || a.ret != c.ret || a.err != c.err || a.used != c.used || a.out != c.out) fail("%s, flags %d, input %s, room %zu: returns %zd, error %d, consumes %zu, writes %s; natively %zd, %d, %zu, %s", how.c_str(), fl, hex(in).c_str(), cap, (ssize_t)a.ret, a.err, a.used, hex(a.out).c_str(), (ssize_t)b.ret, b.err, b.used, hex(b.out).c_str());
    }
}
CASE(c18_open, "c18_open") {
    std::string to = name(S, S.draw(4) != 0), from = name(S, S.draw(4) != 0); uint32_t k = S.draw(2) ? 1 : S.draw(5); const Suffix &x = SUF[k]; std::string suf = anycase(S, x.s), tc = to + suf;
    int f = want(from), t = want(to); bool ok = f >= 0 && t >= 0; mem::reset(); errno = 0; void *cd = i_open(tc.c_str(), from.c_str()); int e = errno; std::string how = fmt("iconv_open(%s, %s)", q(tc).c_str(), q(from).c_str()); sample(how);
    if (!ok) { if (cd != (void *)-1) fail("%s succeeds", how.c_str()); if (e != EINVAL) fail("%s fails with error %d, expected EINVAL", how.c_str(), e); label("unknown name"); nontrivial(hash_str(tc, hash_str(from))); }
    else { if (cd == (void *)-1) fail("%s fails with error %d", how.c_str(), e); compare(S, cd, E[f], E[t], x.discard, how); if (i_close(cd) != 0) fail("%s: closing fails", how.c_str()); label(suf.empty() ? "plain" : x.discard ? "ignore suffix" : "other suffix"); nontrivial(hash_str(tc, hash_str(from))); }
    if (mem::available && mem::live()) fail("%s and closing leak %ld blocks", how.c_str(), mem::live());
}
// Every name as target and as source, with every suffix: discarding on or off, checked with an illegal byte and a lacking character.
static std::vector<std::pair<int, int>> &NM() { static std::vector<std::pair<int, int>> v; if (v.empty()) for (auto &e : E) for (size_t k = 0; k < e.names.size(); k++) v.push_back({e.idx, (int)k}); return v; }
SWEEP(c18_names, "c18_names", NM().size()) {
    Enc &e = E[NM()[I].first]; const std::string &n = e.names[NM()[I].second]; Src S; S.st = mix(base_seed(), I); Enc &u8 = enc("utf8"), &as = enc("ascii");
    for (auto &x : SUF) for (int dir = 0; dir < 2; dir++) for (int rep = 0; rep < 6; rep++) {
        Enc &f = dir ? e : rep & 1 ? u8 : as, &t = dir ? (rep & 1 ? u8 : as) : e; std::string to = (dir ? t.names[0] : n) + anycase(S, x.s), from = dir ? n : f.names[0]; void *cd = i_open(to.c_str(), from.c_str()); if (cd == (void *)-1) fail("iconv_open(%s, %s) fails with error %d", q(to).c_str(), q(from).c_str(), errno);
        bytes in = rep < 2 ? ref_encode(f, {'a', 0x4E00, 0x1F600, 'b'}) + "\xff\xc0" + ref_encode(f, {'z'}) : gen_bytes(S, f, 14); Result g = run(SUT, cd, in), w = run(REF, f, t, x.discard, in); i_close(cd);
        if (g != w) fail("iconv_open(%s, %s): input %s gives %s, expected %s", q(to).c_str(), q(from).c_str(), hex(in).c_str(), show(g).c_str(), show(w).c_str()); evals(1); nontrivial(hash_str(in, hash_str(to, hash_str(from))));
    }
    label("names");
}
// Many descriptors open at a time, opened and closed in any order.
CASE(c18_many, "c18_many") {
    struct O { void *cd; int f, t, fl; std::string how; }; std::vector<O> o; int ops = 2 + S.draw(20); mem::reset();
    for (int k = 0; k < ops; k++) switch (o.empty() ? 0 : S.draw(4)) {
        case 0: { Enc &f = gen_enc(S), &t = gen_enc(S); const Suffix &x = SUF[S.draw(5)]; std::string to = S.pick(t.names) + x.s, from = S.pick(f.names); void *cd = i_open(to.c_str(), from.c_str()); if (cd == (void *)-1) fail("iconv_open(%s, %s) fails", q(to).c_str(), q(from).c_str()); for (auto &y : o) if (y.cd == cd) fail("iconv_open gives a descriptor that is in use"); o.push_back({cd, f.idx, t.idx, x.discard, to}); break; }
        case 1: { size_t i = S.draw((uint32_t)o.size()); if (i_close(o[i].cd)) fail("iconv_close fails"); o.erase(o.begin() + i); break; }
        default: { O &y = o[S.draw((uint32_t)o.size())]; SUT.iconv(y.cd, nullptr, nullptr, nullptr, nullptr); if (E[y.f].bom) break; bytes in = gen_bytes(S, E[y.f], 10); Result g = run(SUT, y.cd, in), w = run(REF, E[y.f], E[y.t], y.fl, in); if (g != w) fail("%s (%zu descriptors open): input %s gives %s, expected %s", pairname(E[y.f], E[y.t]).c_str(), o.size(), hex(in).c_str(), show(g).c_str(), show(w).c_str()); break; }
    }
    std::string h; for (auto &y : o) { h += y.how; if (i_close(y.cd)) fail("iconv_close fails"); } if (mem::available && mem::live()) fail("%ld blocks are left after closing everything", mem::live());
    if (o.size() > 1) nontrivial(hash_str(h, ops)); label("histories"); sample(fmt("%d operations, %zu descriptors open at the end", ops, o.size()));
}

// Suffixes that resemble the ignore suffix, and the suffix on the source name.
static std::vector<std::string> &NEAR() {
    static std::vector<std::string> v; if (v.empty()) { std::set<std::string> u; std::string g = "//IGNORE";
        for (size_t n = 1; n < g.size(); n++) u.insert(g.substr(0, n)); // truncated
        for (size_t p = 2; p < g.size(); p++) { for (char c : std::string("AEGINORTXZ0/ ")) { std::string s = g; s[p] = c; u.insert(s); } std::string s = g; s.erase(p, 1); u.insert(s); for (char c : std::string("ENX1 ")) { s = g; s.insert(p, 1, c); u.insert(s); } }
        for (size_t p = 2; p + 1 < g.size(); p++) { std::string s = g; std::swap(s[p], s[p + 1]); u.insert(s); }
        for (auto x : {"/IGNORE", "//TRANSLIT", "//TRANSLIT//IGNOR", "//translit", "//NON_IDENTICAL_DISCARD", "//XIGNORE", "//ignor", "//NOIGNORE", "//STRICT", "//I", "//TRANSLIT/IGNORE"}) u.insert(x);
        for (auto &s : u) if (canon(s).find("//IGNORE") == std::string::npos) v.push_back(s); }
    return v;
}
SWEEP(c18_suffix, "c18_suffix", E.size()) {
    Enc &e = E[I]; Src S; S.st = mix(base_seed(), I); Enc &u8 = enc("utf8"); std::string illegal = "a\xff" "b"; text lack{'a', 0x1F600, 'b'};
    auto test = [&](const std::string &to, const std::string &from, Enc &f, Enc &t, int fl, bool may_fail) {
        errno = 0; mem::reset(); void *cd = i_open(to.c_str(), from.c_str()); int err = errno; std::string how = fmt("iconv_open(%s, %s)", q(to).c_str(), q(from).c_str());
        if (cd == (void *)-1) { if (!may_fail) fail("%s fails with error %d", how.c_str(), err); if (err != EINVAL) fail("%s fails with error %d, expected EINVAL", how.c_str(), err); label("refused"); }
        else { std::vector<bytes> ins{f.unit == 1 ? ref_encode(f, {'a'}) + "\xff\xfe\x80" + ref_encode(f, {'b'}) : f.unit == 2 ? "\0a\xdc\0\0b"_b : "\0\0\0a\xff\xff\xff\xff\0\0\0b"_b, ref_encode(f, lack), gen_bytes(S, f, 12)};
            for (auto &in : ins) { Result w = run(REF, f, t, fl, in), g; { SUT.iconv(cd, nullptr, nullptr, nullptr, nullptr); if (f.bom && &in != &ins[0]) break; g = run(SUT, cd, in); } if (g != w) fail("%s: input %s gives %s, expected %s", how.c_str(), hex(in).c_str(), show(g).c_str(), show(w).c_str()); }
            if (i_close(cd)) fail("%s: closing fails", how.c_str()); label(fl ? "discarding" : "not discarding"); }
        if (mem::available && mem::live()) fail("%s and closing leak %ld blocks", how.c_str(), mem::live());
        evals(1); nontrivial(hash_str(to, hash_str(from)));
    };
    for (auto &s : NEAR()) { std::string x = anycase(S, s), n = S.pick(e.names); test(n + x, "UTF-8", u8, e, 0, true); test("UTF-8" + x, n, e, u8, 0, true); if (S.draw(4) == 0) test("UTF-8", n + x, e, u8, 0, true); }
    for (auto &n : e.names) { std::string x = anycase(S, "//IGNORE"); test("UTF-8", n + x, e, u8, 1, false); test(n, "UTF-8" + x, u8, e, 1, false); test(n + anycase(S, "//IGNORE"), "UTF-8" + x, u8, e, 1, false); test(n + "//TRANSLIT", "UTF-8" + x, u8, e, 1, false); test(n, "UTF-8", u8, e, 0, false); }
}
