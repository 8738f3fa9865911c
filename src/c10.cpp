// C10: output in stateful encodings is well-formed and self-contained. Oracle: strict readers written from the standards
// (RFC 1468, 1554, 1557, 1843, 1922, 2152, 2237, ISO-2022-JP-3, CP50221); the code tables of the single character sets come
// from the reference. Also glibc's iconv as a foreign reader, for the characters on which its tables agree.
#include "stream.hpp"
using namespace vp;
extern "C" { void *iconv_open(const char *, const char *); size_t iconv(void *, char **, size_t *, char **, size_t *); int iconv_close(void *); }

struct Des { const char *seq; int g; int width; };   // designation: bytes after ESC, target (0..3), bytes per character
struct Rules { const char *id; bool shifts; std::vector<Des> des; };
static const std::vector<Rules> RULES = {
    {"iso2022_jp", false, {{"(B", 0, 1}, {"(J", 0, 1}, {"$@", 0, 2}, {"$B", 0, 2}}},
    {"iso2022_jp1", false, {{"(B", 0, 1}, {"(J", 0, 1}, {"$@", 0, 2}, {"$B", 0, 2}, {"$(D", 0, 2}}},
    {"iso2022_jp2", false, {{"(B", 0, 1}, {"(J", 0, 1}, {"$@", 0, 2}, {"$B", 0, 2}, {"$(D", 0, 2}, {"$A", 0, 2}, {"$(C", 0, 2}, {"(I", 0, 1} /* libiconv's documented extension */, {".A", 2, 1}, {".F", 2, 1}}},
    {"iso2022_jp3", false, {{"(B", 0, 1}, {"(J", 0, 1}, {"(I", 0, 1}, {"$@", 0, 2}, {"$B", 0, 2}, {"$(O", 0, 2}, {"$(Q", 0, 2}, {"$(P", 0, 2}}},
    {"iso2022_jpms", false, {{"(B", 0, 1}, {"(J", 0, 1}, {"(I", 0, 1}, {"$@", 0, 2}, {"$B", 0, 2}, {"$(D", 0, 2}}},
    {"iso2022_cn", true, {{"$)A", 1, 2}, {"$)G", 1, 2}, {"$*H", 2, 2}}},
    {"iso2022_cn_ext", true, {{"$)A", 1, 2}, {"$)G", 1, 2}, {"$)E", 1, 2}, {"$*H", 2, 2}, {"$+I", 3, 2}, {"$+J", 3, 2}, {"$+K", 3, 2}, {"$+L", 3, 2}, {"$+M", 3, 2}}},
    {"iso2022_kr", true, {{"$)C", 1, 2}}},
};
// What a single code in a single character set means, from the reference; empty if nothing.
static const text &meaning(Enc &e, const bytes &alone) {
    static std::map<std::pair<int, bytes>, text> memo; auto k = std::make_pair(e.idx, alone); auto it = memo.find(k); if (it != memo.end()) return it->second;
    Result r = run(REF, e, E[PIV], 0, alone); return memo[k] = r.status || r.flush ? text() : unpack(r.out);
}
static std::string bad; // why the output is not well-formed
static bool no(const std::string &s) { bad = s; return false; }
static bool read2022(const Rules &R, Enc &e, const bytes &b, text &out) {
    const Des *g[4] = {nullptr, nullptr, nullptr, nullptr}; bool so = false; size_t i = 0; const bytes ESC = "\x1b";
    auto g0width = [&] { return g[0] ? g[0]->width : 1; };
    while (i < b.size()) {
        unsigned char c = b[i];
        if (c >= 0x80) return no(fmt("8-bit byte at %zu", i));
        if (c == 0x1b) {
            if (i + 1 < b.size() && (b[i + 1] == 'N' || b[i + 1] == 'O')) {
                int k = b[i + 1] == 'N' ? 2 : 3; if (!g[k]) return no(fmt("single shift at %zu without a designation in this line", i));
                int w = g[k]->width; if (i + 2 + w > b.size()) return no("single shift at the end");
                const text &m = meaning(e, ESC + g[k]->seq + b.substr(i, 2 + w)); if (m.empty()) return no(fmt("undefined code at %zu", i));
                out.insert(out.end(), m.begin(), m.end()); i += 2 + w; continue;
            }
            const Des *d = nullptr; for (auto &x : R.des) if (b.compare(i + 1, strlen(x.seq), x.seq) == 0) d = &x;
            if (!d) return no(fmt("unknown escape sequence at %zu", i));
            g[d->g] = d; i += 1 + strlen(d->seq); continue;
        }
        if (R.shifts && c == 0x0E) { if (!g[1]) return no(fmt("shift-out at %zu without a designation in this line", i)); so = true; i++; continue; }
        if (R.shifts && c == 0x0F) { so = false; i++; continue; }
        if (so || g0width() == 2) {
            if (i + 2 > b.size() || c < 0x21 || c > 0x7E || b[i + 1] < 0x21 || b[i + 1] > 0x7E) return no(fmt("byte %02x at %zu inside two-byte text", c, i));
            const text &m = so ? meaning(e, ESC + g[1]->seq + "\x0e" + b.substr(i, 2) + "\x0f") : meaning(e, ESC + g[0]->seq + b.substr(i, 2) + "\x1b(B");
            if (m.empty()) return no(fmt("undefined code at %zu", i));
            out.insert(out.end(), m.begin(), m.end()); i += 2; continue;
        }
        if (c < 0x20 || c == 0x7F || !g[0] || strcmp(g[0]->seq, "(B") == 0) {
            if (c == '\n' || c == '\r') { g[1] = g[2] = g[3] = nullptr; if (g[0] && strcmp(g[0]->seq, "(B") && strcmp(g[0]->seq, "(J")) return no(fmt("line ends at %zu in another set than ASCII or JIS-Roman", i)); }
            out.push_back(c);
        } else { const text &m = meaning(e, ESC + g[0]->seq + bytes(1, (char)c) + "\x1b(B"); if (m.empty()) return no(fmt("undefined code at %zu", i)); out.insert(out.end(), m.begin(), m.end()); }
        i++;
    }
    if (so) return no("ends in shifted-out state");
    if (g[0] && strcmp(g[0]->seq, "(B")) return no("does not end in ASCII");
    return true;
}
static bool readhz(Enc &e, const bytes &b, text &out) {
    bool gb = false; size_t i = 0; static Enc &euc = enc("euc_cn");
    while (i < b.size()) {
        unsigned char c = b[i]; if (c >= 0x80) return no(fmt("8-bit byte at %zu", i));
        if (c == '~') {
            if (i + 1 >= b.size()) return no("lone tilde at the end"); char d = b[i + 1];
            if (gb) { if (d != '}') return no(fmt("~%c in GB mode at %zu", d, i)); gb = false; }
            else if (d == '~') out.push_back('~'); else if (d == '{') gb = true; else if (d != '\n') return no(fmt("~%c in ASCII mode at %zu", d, i));
            i += 2; continue;
        }
        if (!gb) { out.push_back(c); i++; continue; }
        if (i + 2 > b.size() || c < 0x21 || c > 0x77 || b[i + 1] < 0x21 || b[i + 1] > 0x7E) return no(fmt("byte %02x at %zu in GB mode", c, i));
        bytes x; x += (char)(c | 0x80); x += (char)(b[i + 1] | 0x80); const text &m = meaning(euc, x); if (m.empty()) return no(fmt("undefined code at %zu", i));
        out.insert(out.end(), m.begin(), m.end()); i += 2;
    }
    return gb ? no("ends in GB mode") : true;
}
static bool readutf7(const bytes &b, text &out) {
    static const std::string B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    static const std::string DIRECT = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'(),-./:? \t\r\n!\"#$%&*;<=>@[]^_`{|}";
    size_t i = 0; bool open = false;
    while (i < b.size()) {
        unsigned char c = b[i]; if (c >= 0x80) return no(fmt("8-bit byte at %zu", i));
        if (c != '+') { if (!memchr(DIRECT.data(), c, DIRECT.size())) return no(fmt("byte %02x at %zu is not a direct character", c, i)); out.push_back(c); i++; continue; }
        i++; if (i < b.size() && b[i] == '-') { out.push_back('+'); i++; continue; }
        uint32_t acc = 0; int bits = 0; std::vector<uint32_t> u; size_t s = i;
        while (i < b.size() && B64.find(b[i]) != std::string::npos && b[i]) { acc = acc << 6 | (uint32_t)B64.find(b[i]); bits += 6; if (bits >= 16) { bits -= 16; u.push_back(acc >> bits & 0xFFFF); } acc &= (1u << bits) - 1; i++; }
        if (i == s) return no(fmt("empty base64 run at %zu", i));
        if (bits >= 6 || acc) return no(fmt("base64 run ending at %zu has %d left-over bits, value %x", i, bits, acc));
        for (size_t k = 0; k < u.size(); k++) {
            uint32_t w = u[k];
            if (w >= 0xDC00 && w < 0xE000) return no("unpaired surrogate");
            if (w >= 0xD800 && w < 0xDC00) { if (k + 1 >= u.size() || u[k + 1] < 0xDC00 || u[k + 1] >= 0xE000) return no("unpaired surrogate"); w = 0x10000 + ((w - 0xD800) << 10) + (u[++k] - 0xDC00); }
            out.push_back(w);
        }
        open = i == b.size(); if (i < b.size() && b[i] == '-') i++;
    }
    return open ? no("ends inside a base64 run") : true;
}
static bool readit(Enc &e, const bytes &b, text &out) {
    bad.clear(); if (e.id == "hz") return readhz(e, b, out); if (e.id == "utf7") return readutf7(b, out);
    for (auto &r : RULES) if (e.id == r.id) return read2022(r, e, b, out);
    fail("no reader for %s", e.id.c_str());
}
static std::vector<int> &SF() { static std::vector<int> v; if (v.empty()) for (auto &e : E) if (e.stateful) v.push_back(e.idx); return v; }
static bool tag(uint32_t c) { return c >> 7 == 0xE0000 >> 7; }
// The text a reader should get: the characters themselves, or what the definition maps them to when they do not come back.
static text expected(Enc &e, const text &t) {
    text k; bool all = true; for (auto c : t) { if (tag(c) && e.id != "utf7") continue; k.push_back(c); if (!e.rt.has(c)) all = false; }
    if (all) return k;
    Result d = run(REF, e, E[PIV], 0, ref_encode(e, t)); return unpack(d.out);
}
static void check(Enc &e, const text &t, const text &want, const bytes &out, const char *how) {
    text got; if (!readit(e, out, got)) fail("%s: %s, %s, gives %s, which is malformed: %s", e.names[0].c_str(), show(t).c_str(), how, hex(out).c_str(), bad.c_str());
    if (got != want) fail("%s: %s, %s, gives %s, which a reader takes as %s, expected %s", e.names[0].c_str(), show(t).c_str(), how, hex(out).c_str(), show(got).c_str(), show(want).c_str());
}
static text gen(Src &S, Enc &e, size_t n) {
    text t = S.draw(3) ? gen_text(S, e, n) : gen_text_rt(S, e, n);
    static const uint32_t spice[] = {'\n', '\r', '~', '{', '}', '+', '-', '\\', 0x0E00 /* skipped if lacking */, '/', 'A', ' ', 0x7F, 0xA5, 0x203E, 0};
    uint32_t k = S.draw(4); while (k--) { uint32_t c = spice[S.draw(16)]; if (e.rep.has(c)) t.insert(t.begin() + S.draw((uint32_t)t.size() + 1), c); }
    if (e.id == "iso2022_jp2" && S.draw(3) == 0) { static const text tags[] = {{0xE0001, 0xE006A, 0xE0061}, {0xE0001, 0xE006B, 0xE006F}, {0xE0001, 0xE007A, 0xE0068}, {0xE007F}, {0xE0001, 0xE004A, 0xE0041}, {0xE0001}}; const text &g = tags[S.draw(6)]; t.insert(t.begin() + S.draw((uint32_t)t.size() + 1), g.begin(), g.end()); }
    // The escape and shift characters themselves are not text in these encodings.
    text r; for (auto c : t) if (!(e.id.rfind("iso2022", 0) == 0 && (c == 0x1B || c == 0x0E || c == 0x0F))) r.push_back(c);
    return r;
}
// Ordered pairs and triples of the representative characters and line ends: all transitions of the shift state machine.
static size_t n3() { return SF().size() * 64; }
SWEEP(c10_trans, "c10_trans", n3()) {
    Enc &e = E[SF()[I / 64]]; size_t part = I % 64; std::vector<text> el; el.push_back({'a'}); el.push_back({'\n'}); el.push_back({'\r'}); el.push_back({'~'}); el.push_back({'+'}); el.push_back({'-'}); el.push_back({'/'}); el.push_back({'\\'});
    for (auto c : e.reprs) if (e.rep.has(c) && c != 0x1B && c != 0x0E && c != 0x0F) el.push_back({c});
    if (e.id == "iso2022_jp2") { el.push_back({0xE0001, 0xE006A, 0xE0061}); el.push_back({0xE0001, 0xE006B, 0xE006F}); el.push_back({0xE0001, 0xE007A, 0xE0068}); el.push_back({0xE007F}); }
    for (auto &c : e.combos) if (e.id == "iso2022_jp3" && el.size() < 40) el.push_back(c);
    std::vector<text> keep; for (auto &x : el) { bool ok = true; text before; for (auto c : x) { if (!tag(c) && !e.has(before, c)) ok = false; before.push_back(c); } if (ok) keep.push_back(x); }
    el = keep; size_t n = el.size(); Rng rng(mix(base_seed(), I));
    for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) for (size_t c = 0; c < n; c++) {
        if ((a * n + b) * n + c == 0 || ((a * n + b) * n + c) % 64 != part) continue;
        text t = el[a]; t.insert(t.end(), el[b].begin(), el[b].end()); t.insert(t.end(), el[c].begin(), el[c].end()); if (rng(2)) { const text &d = el[rng((uint32_t)n)]; t.insert(t.end(), d.begin(), d.end()); }
        Result r = run(SUT, E[PIV], e, 0, pack(t)); if (r.status || r.flush || r.count) fail("%s: %s is not converted: %s", e.names[0].c_str(), show(t).c_str(), show(r).c_str());
        check(e, t, expected(e, t), r.out, "in one call"); evals(1); nontrivial(hash_str(r.out, e.idx));
    }
    label(e.names[0]);
}
CASE(c10_text, "c10_text") {
    Enc &e = E[SF()[S.draw((uint32_t)SF().size())]]; text t = gen(S, e, 30); if (S.flip(1, 100)) t = amplify(S, t, 5000);
    { text k; for (auto c : t) if (tag(c) || e.has(k, c)) k.push_back(c); t = k; }
    text want = expected(e, t); sample(e.names[0] + ": " + show(t));
    Result r = run(SUT, E[PIV], e, 0, pack(t)); if (r.status || r.flush || r.count) fail("%s: %s is not converted: %s", e.names[0].c_str(), show(t).c_str(), show(r).c_str());
    check(e, t, want, r.out, "in one call"); if (t.size() > 1) nontrivial(hash_str(r.out, e.idx));
    // Divided in any way, with any room, several texts in one descriptor.
    Cd cd(SUT, E[PIV], e, 0); int parts = 1 + S.draw(3); if (t.size() > 200) parts = 1;
    for (int k = 0; k < parts; k++) {
        uint32_t pm = S.draw(3), rm = S.draw(3); size_t mul = t.size() > 200 ? 100 : 1;
        Plan p{[&] { return (pm == 0 ? 4 : pm == 1 ? S.draw(9) : 4 * t.size()) * mul; }, [&] { return (rm == 0 ? S.draw(6) : rm == 1 ? S.draw(16) : 4 + S.draw(60)) * mul; }};
        Result g = stream(SUT, cd, pack(t), p); if (g.status || g.flush) fail("%s: %s in pieces is not converted: %s", e.names[0].c_str(), show(t).c_str(), show(g).c_str());
        check(e, t, want, g.out, k ? "in pieces, after another text" : "in pieces");
        if (k + 1 < parts && S.draw(3)) { t = gen(S, e, 12); text q; for (auto c : t) if (tag(c) || e.has(q, c)) q.push_back(c); t = q; want = expected(e, t); }
    }
}
// Substitution and discarding must leave the output well-formed too.
CASE(c10_any, "c10_any") {
    Enc &e = E[SF()[S.draw((uint32_t)SF().size())]]; text t; for (auto c : gen_any(S, e, 25)) if (!(e.id.rfind("iso2022", 0) == 0 && (c == 0x1B || c == 0x0E || c == 0x0F))) t.push_back(c);
    text keep; size_t lack = 0; for (auto c : t) if ((tag(c) && e.id != "utf7")) { if (e.id == "iso2022_jp2") keep.push_back(c); } else if (e.has(keep, c)) keep.push_back(c); else lack++;
    Result r = run(SUT, E[PIV], e, 1, pack(t)); if (r.status || r.flush || r.count != lack) fail("%s: %s, discarding: %s, expected %zu dropped", e.names[0].c_str(), show(t).c_str(), show(r).c_str(), lack);
    check(e, t, expected(e, keep), r.out, "discarding what is lacking"); if (lack) { nontrivial(hash_str(r.out, mix(e.idx, hash_str(pack(t))))); label("with characters to drop"); } sample(e.names[0] + ": " + show(t));
    // Without discarding: what was delivered before the stop, completed by a reset, is well-formed.
    Cd cd(SUT, E[PIV], e, 0); Result g = run(SUT, cd, pack(t), true); if (g.status == EILSEQ) { g.out += call(SUT, cd, nullptr, 0, 64, true).out; text q; for (auto c : t) { if (tag(c) && e.id != "utf7") { if (e.id == "iso2022_jp2") q.push_back(c); } else if (e.has(q, c)) q.push_back(c); else break; } check(e, t, expected(e, q), g.out, "stopped at a lacking character"); label("stopped"); }
}
// glibc as a foreign reader (not for ISO-2022-CN, where it does not honour a designation while shifted out).
struct Foreign { void *cd = (void *)-1; std::vector<uint32_t> cps; };
static Foreign &foreign(Enc &e) {
    static std::map<int, Foreign> m; auto it = m.find(e.idx); if (it != m.end()) return it->second; Foreign &f = m[e.idx];
    static const std::map<std::string, const char *> names = {{"iso2022_jp", "ISO-2022-JP"}, {"iso2022_jp1", "ISO-2022-JP-1"}, {"iso2022_jp2", "ISO-2022-JP-2"}, {"iso2022_jp3", "ISO-2022-JP-3"}, {"iso2022_kr", "ISO-2022-KR"}, {"utf7", "UTF-7"}};
    auto n = names.find(e.id); if (n == names.end()) return f; f.cd = iconv_open("UCS-4LE", n->second); if (f.cd == (void *)-1) return f;
    Rng rng(mix(base_seed(), e.idx));
    for (uint64_t i = 0; i < e.rt.n; i += e.full ? 1 + rng(16) : 1) {
        uint32_t c = e.rt.at(i); if (c == 0x1B || c == 0x0E || c == 0x0F || tag(c)) continue; bytes b = ref_encode(e, {c}); uint32_t o[4]; char *op = (char *)o, *ip = &b[0]; size_t ol = sizeof o, il = b.size();
        iconv(f.cd, 0, 0, 0, 0); if (iconv(f.cd, &ip, &il, &op, &ol) == 0 && ol == 12 && o[0] == c) f.cps.push_back(c);
    }
    return f;
}
CASE(c10_glibc, "c10_glibc") {
    Enc &e = E[SF()[S.draw((uint32_t)SF().size())]]; Foreign &f = foreign(e); if (f.cps.size() < 50) throw Discard{};
    text t; size_t n = 1 + gen_len(S, 25);
    for (size_t i = 0; i < n; i++) { uint32_t c; switch (S.draw(4)) { case 0: c = S.draw(5) ? 0x20 + S.draw(95) : S.draw(2) ? '\n' : '\r'; break; case 1: if (e.reprs.empty()) { c = 'x'; break; } c = S.pick(e.reprs); break; default: c = f.cps[S.draw((uint32_t)f.cps.size())]; } if (std::binary_search(f.cps.begin(), f.cps.end(), c)) t.push_back(c); }
    // glibc composes JIS X 0213 combining sequences differently; leave those out.
    if (e.id == "iso2022_jp3") for (auto &c : t) if (c == 0x309A || c == 0x300 || c == 0x301 || c == 0x2E5 || c == 0x2E9) c = 'x';
    Result r = run(SUT, E[PIV], e, 0, pack(t)); if (r.status || r.flush || r.count) fail("%s: %s is not converted: %s", e.names[0].c_str(), show(t).c_str(), show(r).c_str());
    bytes b = r.out, o(t.size() * 4 + 64, 0); char *ip = &b[0], *op = &o[0]; size_t il = b.size(), ol = o.size(); iconv(f.cd, 0, 0, 0, 0); size_t x = iconv(f.cd, &ip, &il, &op, &ol), y = iconv(f.cd, 0, 0, &op, &ol); o.resize(o.size() - ol);
    if (x || y || unpack(o) != t) fail("%s: %s gives %s, which glibc reads as %s%s", e.names[0].c_str(), show(t).c_str(), hex(r.out).c_str(), show(unpack(o)).c_str(), x ? " with an error" : "");
    if (t.size() > 1) nontrivial(hash_str(r.out, e.idx)); label(e.names[0]); sample(e.names[0] + ": " + show(t));
}
// Every character of every stateful encoding between characters of the other sets.
SWEEP(c10_rep, "c10_rep", SF().size() * 64) {
    Enc &e = E[SF()[I / 64]]; size_t part = I % 64; Rng rng(mix(base_seed(), I)); std::vector<uint32_t> ctx{'A', '\n'}; for (auto c : e.reprs) ctx.push_back(c);
    uint64_t step = e.full && !thorough() ? 4 : 1; int R = thorough() ? 12 : e.full ? 1 : 5;
    for (uint64_t i = part + 64 * (step > 1 ? rng((uint32_t)step) : 0); i < e.rep.n; i += 64 * step) {
        uint32_t c = e.rep.at(i); if ((e.id != "hz" && e.id != "utf7" && (c == 0x1B || c == 0x0E || c == 0x0F)) || (tag(c) && e.id != "utf7")) continue;
        for (int k = 0; k < R; k++) {
            text t{ctx[rng((uint32_t)ctx.size())], c, ctx[rng((uint32_t)ctx.size())], c}; if (rng(3) == 0) t.insert(t.begin(), c);
            Result r = run(SUT, E[PIV], e, 0, pack(t)); if (r.status || r.flush || r.count) fail("%s: %s is not converted: %s", e.names[0].c_str(), show(t).c_str(), show(r).c_str());
            check(e, t, expected(e, t), r.out, "in one call"); evals(1); nontrivial(hash_str(r.out, e.idx));
        }
    }
    label(e.names[0]);
}

// Long texts: the designations and shifts are right in every line and at the end.
SWEEP(c10_long, "c10_long", SF().size() * 32) {
    Enc &e = E[SF()[I / 32]]; uint64_t seed = mix(base_seed(), I); Rng rng(seed); size_t n = I % 32 < 8 ? 131072 - rng(200) : 500 + rng(9000); text t = long_text(e, e.rt, n, (int)(I % 4), seed), k; uint32_t nl = rng(3) ? 2 + rng(80) : 100000;
    for (auto c : t) { if (e.id != "utf7" && (tag(c) || (e.id != "hz" && (c == 0x1B || c == 0x0E || c == 0x0F)))) continue; if (rng(nl) == 0) k.push_back(rng(3) ? '\n' : '\r'); k.push_back(c); }
    Result r = run(SUT, E[PIV], e, 0, pack(k)); if (r.status || r.flush || r.count) fail("%s: a text of %zu characters (%s...) is not converted: %s", e.names[0].c_str(), k.size(), show(k, 4).c_str(), show(r).c_str());
    text got; if (!readit(e, r.out, got)) fail("%s: a text of %zu characters (%s...) gives malformed output: %s", e.names[0].c_str(), k.size(), show(k, 4).c_str(), bad.c_str());
    if (got != expected(e, k)) { size_t j = 0; while (j < got.size() && j < k.size() && got[j] == k[j]) j++; fail("%s: a text of %zu characters (%s...) is read differently from character %zu on", e.names[0].c_str(), k.size(), show(k, 4).c_str(), j); }
    evals(1); nontrivial(hash_str(r.out, I)); label(e.names[0]);
}
