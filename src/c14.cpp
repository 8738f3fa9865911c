// C14: the C++ interface. Oracle: the C one-shot conversion of the library, streaming in the reference, frozen names, code pages and constants.
#include "stream.hpp"
#include <cppp/reiconv.h>
#include <cppp/reiconv.hpp>
#include <fstream>
#include <stdexcept>
#include <system_error>
using namespace vp;
enum { MISSING = -999 };
struct K { const char *name, *id; int cpp, c; };
static const K KS[] = {
#include "vp_constants.inc"
};
static std::map<int, int> &CP() { static std::map<int, int> m; if (m.empty()) { std::ifstream f(std::string(getenv("VP_DATA")) + "/codepages.txt"); int n; std::string id; while (f >> n >> id) m[n] = enc(id.c_str()).idx; } return m; }
static std::vector<std::vector<int>> &cps() { static std::vector<std::vector<int>> v; if (v.empty()) { v.resize(E.size()); for (auto &p : CP()) v[p.second].push_back(p.first); } return v; }
static std::vector<std::vector<int>> &ks() { static std::vector<std::vector<int>> v; if (v.empty()) { v.resize(E.size()); for (size_t i = 0; i < sizeof KS / sizeof *KS; i++) if (*KS[i].id && KS[i].cpp != MISSING) v[enc(KS[i].id).idx].push_back((int)i); } return v; }
static std::string spelled(Src &S, const std::string &n) { std::string r; for (char c : n) { if (S.draw(6) == 0) r += "-_"[S.draw(2)]; r += S.draw(2) && c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; } return r; }
// An encoding object for e, named in one of the possible ways.
static reiconv::Encoding make(Src &S, Enc &e, std::string &how) {
    try {
        switch (S.draw(5)) {
        case 0: { std::string n = spelled(S, S.pick(e.names)); how = "\"" + n + "\""; return reiconv::Encoding(n.c_str()); }
        case 1: { std::string n = spelled(S, S.pick(e.names)); how = "string \"" + n + "\""; return reiconv::Encoding(n); }
        case 2: if (!cps()[e.idx].empty()) { int n = cps()[e.idx][S.draw((uint32_t)cps()[e.idx].size())]; how = fmt("code page %d", n); return reiconv::Encoding(n); } [[fallthrough]];
        case 3: if (!ks()[e.idx].empty()) { const K &k = KS[ks()[e.idx][S.draw((uint32_t)ks()[e.idx].size())]]; how = std::string("constant ") + k.name; return reiconv::Encoding((reiconv::Encodings)k.cpp); } [[fallthrough]];
        default: how = "\"" + e.names[0] + "\""; return reiconv::Encoding(e.names[0].c_str());
        }
    } catch (std::exception &x) { fail("the encoding %s, known as %s, throws: %s", how.c_str(), e.names[0].c_str(), x.what()); }
}
struct Out { bool ok; bytes b; int code; std::string other; };
static Out cxx(reiconv::Encoding f, reiconv::Encoding t, const bytes &in, int fl, bool dflt, bool null) {
    Out o{}; std::string_view v = null && in.empty() ? std::string_view() : std::string_view(in);
    try { InLib l; o.b = dflt ? reiconv::convert(f, t, v) : reiconv::convert(f, t, v, (reiconv::ConvertFlag)fl); o.ok = true; }
    catch (std::system_error &x) { o.code = x.code().value(); if (x.code().category() != std::system_category() && x.code().category() != std::generic_category()) o.other = "a system_error of another category"; if (!x.what() || !*x.what()) o.other = "no description"; }
    catch (std::exception &x) { o.other = std::string("an exception that is not a system_error: ") + x.what(); }
    catch (...) { o.other = "an exception that is not a std::exception"; }
    return o;
}
static void check(Enc &f, Enc &t, reiconv::Encoding cf, reiconv::Encoding ct, const bytes &in, int fl, bool dflt, bool null, const std::string &how) {
    std::string what = fmt("%s (%s)%s, input %s", pairname(f, t).c_str(), how.c_str(), fl ? ", discarding" : "", hex(in).c_str());
    // The C form.
    Out c{}; { Cd cd(SUT, f, t, fl); char *p = nullptr; size_t n = 0; errno = 0; int r = SUT.convert(cd, in.data(), in.size(), &p, &n); c.code = errno; c.ok = r == 0; if (c.ok) { c.b.assign(p, n); free(p); } }
    Result w = run(REF, f, t, fl, in); bool ok = !w.status && w.flush == 0;
    mem::reset(); Out g = cxx(cf, ct, in, fl, dflt, null);
    if (!g.other.empty()) fail("%s: %s", what.c_str(), g.other.c_str());
    if (g.ok != ok) fail("%s: the C++ conversion %s, but the input is %s", what.c_str(), g.ok ? "returns" : fmt("throws error %d", g.code).c_str(), ok ? "convertible" : "not convertible");
    if (g.ok != c.ok) fail("%s: the C++ conversion %s, the C conversion %s", what.c_str(), g.ok ? "returns" : "throws", c.ok ? "succeeds" : "fails");
    if (!g.ok && g.code != c.code) fail("%s: the exception carries error %d, the C conversion fails with %d", what.c_str(), g.code, c.code);
    if (g.ok && (g.b != c.b || g.b != w.out)) fail("%s: the C++ conversion returns %s, the C conversion %s, expected %s", what.c_str(), hex(g.b).c_str(), hex(c.b).c_str(), hex(w.out).c_str());
    bytes().swap(g.b); if (mem::available && mem::live()) fail("%s: the C++ conversion leaks %ld blocks (%s)", what.c_str(), mem::live(), g.ok ? "returning" : "throwing");
    label(g.ok ? "returned" : "thrown"); if (in.size() > 1) nontrivial(hash_str(in, mix(f.idx * 256 + t.idx, fl))); sample(what);
}
static bytes input(Src &S, Enc &f, Enc &t, int max) {
    switch (S.draw(4)) { case 0: return gen_bytes(S, f, max); case 1: return gen_valid(S, f, max); default: { text k; for (auto c : S.draw(3) ? gen_text(S, t, max / 2) : gen_any(S, t, max / 2)) if (f.rep.has(c)) k.push_back(c); return ref_encode(f, k); } }
}
CASE(c14_conv, "c14_conv") {
    Enc &f = gen_enc(S), &t = gen_enc(S); int fl = S.draw(3) == 0; std::string hf, ht; reiconv::Encoding cf = make(S, f, hf), ct = make(S, t, ht); bytes in = input(S, f, t, 30); if (S.flip(1, 100)) in = amplify(S, in, 10000);
    check(f, t, cf, ct, in, fl, !fl && S.draw(2), S.draw(2), hf + " to " + ht);
}
// Every pair, by constants, with and without discarding, on convertible, partly convertible and malformed input.
SWEEP(c14_pairs, "c14_pairs", E.size() * E.size()) {
    Enc &f = E[I / E.size()], &t = E[I % E.size()]; Src S; S.st = mix(base_seed(), I); std::string hf, ht;
    for (int k = 0; k < (thorough() ? 40 : 4); k++) { reiconv::Encoding cf = make(S, f, hf), ct = make(S, t, ht); bytes in; if (k == 0) { text x; for (uint32_t c : {0x41u, 0xE9u, 0x4E2Du, 0x3B1u, 0x42u}) if (f.rep.has(c)) x.push_back(c); in = ref_encode(f, x); } else in = input(S, f, t, 16); check(f, t, cf, ct, in, k & 1, false, false, hf + " to " + ht); evals(1); }
}
// Objects: construction and equality, known and unknown, in every overload.
CASE(c14_objects, "c14_objects") {
    Enc &a = gen_enc(S), &b = S.draw(2) ? a : gen_enc(S); std::string ha, hb; { reiconv::Encoding x = make(S, a, ha), y = make(S, b, hb), z = x;
    if ((x == y) != (a.idx == b.idx)) fail("the encodings %s (%s) and %s (%s) compare %s", ha.c_str(), a.names[0].c_str(), hb.c_str(), b.names[0].c_str(), x == y ? "equal" : "different");
    if (!(z == x) || (x != y) != (a.idx != b.idx)) fail("comparing copies of %s fails", ha.c_str()); if ((int)x != a.sut) fail("the encoding %s has the index %d, looking up its name gives %d", ha.c_str(), (int)x, a.sut); y = x; if (!(y == z)) fail("assignment of %s loses the encoding", ha.c_str()); }
    label("known"); nontrivial(hash_str(ha, hash_str(hb))); sample(ha + " = " + hb);
    // Unknown names and code pages.
    std::string n = S.pick(a.names); switch (S.draw(6)) { case 0: n += "Q"; break; case 1: n.insert(n.begin(), '!'); break; case 2: n = std::string(S.draw(5000), '-'); break; case 3: n += std::string(1 + S.draw(500), 'X'); break; case 4: n[S.draw((uint32_t)n.size())] = (char)(0x80 + S.draw(128)); break; default: n.clear(); for (size_t k = S.draw(40); k--;) n += (char)(1 + S.draw(255)); }
    std::string c; for (char ch : n) { if (ch >= 'a' && ch <= 'z') ch -= 32; if (ch != '-' && ch != '_') c += ch; } static std::set<std::string> all; if (all.empty()) for (auto &e : E) for (auto &m : e.names) all.insert(m);
    mem::reset(); bool str = S.draw(2); int threw = 0; if (!all.count(c)) { { InLib l; try { if (str) reiconv::Encoding x(n); else reiconv::Encoding x(n.c_str()); } catch (std::invalid_argument &) { threw = 1; } catch (std::exception &) { threw = 2; } catch (...) { threw = 3; } } if (threw != 1) fail("constructing an encoding from the unknown name of %zu bytes %s %s", n.size(), hex(n).c_str(), threw ? "throws something else" : "succeeds"); }
    int p = S.draw(3) ? (int)S.draw(70000) - 1000 : (int)((S.draw(65536) << 16) | S.draw(65536)); auto it = CP().find(p); threw = 0; int idx = -1; { InLib l; try { reiconv::Encoding x(p); idx = x; } catch (std::invalid_argument &) { threw = 1; } catch (...) { threw = 2; } }
    if (it == CP().end() ? threw != 1 : threw || idx != E[it->second].sut) fail("constructing an encoding from code page %d %s, expected %s", p, threw == 1 ? "throws invalid_argument" : threw ? "throws something else" : "succeeds", it == CP().end() ? "invalid_argument" : E[it->second].names[0].c_str());
    if (mem::available && mem::live()) fail("constructing encodings leaks %ld blocks", mem::live());
}
// Every name, code page and constant, in every overload, against every other way of naming the same encoding; conversions with each.
struct W { int e, kind, i; };
static std::vector<W> &WS() { static std::vector<W> v; if (v.empty()) for (auto &e : E) { for (size_t i = 0; i < e.names.size(); i++) { v.push_back({e.idx, 0, (int)i}); v.push_back({e.idx, 1, (int)i}); } for (int p : cps()[e.idx]) v.push_back({e.idx, 2, p}); for (int k : ks()[e.idx]) v.push_back({e.idx, 3, k}); } return v; }
static reiconv::Encoding mk(const W &w, std::string &how) { Enc &e = E[w.e]; try { switch (w.kind) { case 0: how = e.names[w.i]; return reiconv::Encoding(e.names[w.i].c_str()); case 1: how = "string " + e.names[w.i]; return reiconv::Encoding(e.names[w.i]); case 2: how = fmt("code page %d", w.i); return reiconv::Encoding(w.i); default: how = std::string("constant ") + KS[w.i].name; return reiconv::Encoding((reiconv::Encodings)KS[w.i].cpp); } } catch (std::exception &x) { fail("the encoding %s throws: %s", how.c_str(), x.what()); } }
SWEEP(c14_ways, "c14_ways", WS().size()) {
    std::string h1, h2; W &a = WS()[I]; reiconv::Encoding x = mk(a, h1);
    for (auto &b : WS()) { reiconv::Encoding y = mk(b, h2); if ((x == y) != (a.e == b.e)) fail("%s and %s compare %s", h1.c_str(), h2.c_str(), x == y ? "equal" : "different"); evals(1); }
    Enc &e = E[a.e], &u = enc("utf8"); Src S; S.st = mix(base_seed(), I); text tx; for (int k = 0; k < 12; k++) for (auto c : gen_text(S, e, 8)) tx.push_back(c); reiconv::Encoding cu("UTF-8");
    check(e, u, x, cu, ref_encode(e, tx), 0, false, false, h1); check(u, e, cu, x, ref_encode(u, tx), 0, false, false, h1);
}

// The whole repertoire of every encoding, both ways; with and without characters that the target lacks.
SWEEP(c14_rep, "c14_rep", E.size() * 4) {
    Enc &e = E[I / 4]; bool as_target = I % 2, lossy = I % 4 / 2; Enc &o = lossy ? E[mix(base_seed(), I) % E.size()] : enc("utf8"), &f = as_target ? o : e, &t = as_target ? e : o; Rng rng(mix(base_seed(), I)), one(mix(base_seed(), e.idx)); auto list = rep_list(e, one, 2, 61); Src S; S.st = mix(base_seed(), I); std::string hf, ht; reiconv::Encoding cf = make(S, f, hf), ct = make(S, t, ht);
    for (size_t i = 0; i < list.size();) { text x; size_t len = 1 + rng(lossy ? 12 : 60); for (; x.size() < len && i < list.size(); i++) { if (f.rep.has(list[i])) x.push_back(list[i]); else if (rng(3)) continue; else len--; if (rng(12) == 0) x.push_back('a'); } check(f, t, cf, ct, ref_encode(f, x, rng(2)), lossy && rng(2), false, false, hf + " to " + ht); evals(1); }
    label("characters swept", list.size());
}
