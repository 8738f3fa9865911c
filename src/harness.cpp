// The library under test, the frozen reference, frozen encoding data, guarded calls, generators.
#include "vp.hpp"
#include "ref_api.h"
#include <algorithm>
#include <cppp/reiconv.h>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <unistd.h>

namespace vp {
// ------------------------------------------------------------------ libraries
#define S_WRAP(ret, name, params, args) static ret s_##name params { InLib g; return name args; }
S_WRAP(size_t, reiconv_name_canonicalize, (const char *a, char *b), (a, b))
S_WRAP(int, reiconv_lookup_from_name, (const char *a), (a))
S_WRAP(int, reiconv_lookup_from_codepage, (int a), (a))
static void *s_open(int f, int t, int fl) { InLib g; return reiconv_open_from_index(f, t, (enum ConvertFlag)fl); }
static void *s_open_name(const char *f, const char *t, int fl) { InLib g; return reiconv_open_from_name(f, t, (enum ConvertFlag)fl); }
static void *s_open_cp(int f, int t, int fl) { InLib g; return reiconv_open_from_codepage(f, t, (enum ConvertFlag)fl); }
S_WRAP(reiconv_t, reiconv_open, (const char *t, const char *f), (t, f))
S_WRAP(size_t, reiconv_iconv, (void *cd, char **a, size_t *b, char **c, size_t *d), (cd, a, b, c, d))
S_WRAP(int, reiconv_handle_close, (void *cd), (cd))
S_WRAP(size_t, reiconv_result_size, (void *cd, const char *a, size_t n), (cd, a, n))
S_WRAP(int, reiconv_convert_static_size, (void *cd, const char *a, size_t n, char *o, size_t m), (cd, a, n, o, m))
S_WRAP(int, reiconv_convert, (void *cd, const char *a, size_t n, char **o, size_t *m), (cd, a, n, o, m))
Lib SUT = {"library", s_reiconv_name_canonicalize, s_reiconv_lookup_from_name, s_reiconv_lookup_from_codepage, s_open, s_open_name, s_open_cp, s_reiconv_open, s_reiconv_iconv, s_reiconv_handle_close, s_reiconv_result_size, s_reiconv_convert_static_size, s_reiconv_convert};
Lib REF = {"reference", ref_reiconv_name_canonicalize, ref_reiconv_lookup_from_name, ref_reiconv_lookup_from_codepage, ref_reiconv_open_from_index, ref_reiconv_open_from_name, ref_reiconv_open_from_codepage, ref_reiconv_open, ref_reiconv_iconv, ref_reiconv_handle_close, ref_reiconv_result_size, ref_reiconv_convert_static_size, ref_reiconv_convert};

// ------------------------------------------------------------------ frozen data
bool RangeSet::has(uint32_t c) const {
    auto it = std::upper_bound(r.begin(), r.end(), c, [](uint32_t v, const Range &x) { return v < x.lo; });
    return it != r.begin() && (--it)->hi >= c;
}
uint32_t RangeSet::at(uint64_t i) const {
    auto it = std::upper_bound(r.begin(), r.end(), i, [](uint64_t v, const Range &x) { return v < x.before; }); --it;
    return it->lo + (uint32_t)(i - it->before);
}
uint64_t RangeSet::index_of(uint32_t c) const {
    auto it = std::upper_bound(r.begin(), r.end(), c, [](uint32_t v, const Range &x) { return v < x.lo; });
    if (it != r.begin()) { auto p = it - 1; if (c <= p->hi) return p->before + (c - p->lo); }
    return it == r.end() ? n : it->before;
}
std::vector<Enc> E; int PIV = -1;
static std::map<std::string, int> byid;
Enc &enc(const char *id) { auto it = byid.find(id); if (it == byid.end()) { fprintf(stderr, "no encoding %s\n", id); abort(); } return E[it->second]; }

static std::string datadir() { const char *d = getenv("VP_DATA"); return d ? d : "/verif/data"; }
static RangeSet rd(const std::string &s, size_t &p) {
    auto vi = [&] { uint32_t v = 0; int sh = 0; for (;;) { unsigned char c = s[p++]; v |= (uint32_t)(c & 127) << sh; sh += 7; if (c < 128) return v; } };
    RangeSet R; uint32_t n = vi(), last = 0;
    for (uint32_t i = 0; i < n; i++) { uint32_t lo = last + vi(), hi = lo + vi(); R.r.push_back({lo, hi, R.n}); R.n += hi - lo + 1; last = hi; }
    return R;
}
static bytes B(const char *s, size_t n) { return bytes(s, n); }
#define L(s) B(s, sizeof(s) - 1)
static void specials(Enc &e) {
    const std::string &i = e.id; auto &t = e.toks; auto has = [&](const char *s) { return i.find(s) != std::string::npos; };
    if (has("iso2022_jp")) {
        for (auto s : {"\x1b(B", "\x1b(J", "\x1b$@", "\x1b$B", "\x1b", "\x1b$", "\x1b("}) t.push_back(s);
        if (i != "iso2022_jp") for (auto s : {"\x1b$(D", "\x1b$(", "\x1b$(B", "\x1b$(@"}) t.push_back(s);
        if (i == "iso2022_jp2") for (auto s : {"\x1b$A", "\x1b$(C", "\x1b.A", "\x1b.F", "\x1bN", "\x1bN\x41", "\x1b.A\x1bNi", "\x1b.F\x1bNa"}) t.push_back(s);
        if (i == "iso2022_jp3") for (auto s : {"\x1b(I", "\x1b$(O", "\x1b$(P", "\x1b$(Q", "\x1b$B$+", "\x1b$B$F", "\x1b$(Q+D", "\x1b$(Q+w"}) t.push_back(s);
        if (i == "iso2022_jpms") for (auto s : {"\x1b(I", "\x1b$B-`", "\x1b$By!", "\x1b$(Ds!", "\x1b$(Du!"}) t.push_back(s);
        t.push_back("\n");
    }
    if (has("iso2022_cn")) for (auto s : {"\x1b$)A", "\x1b$)G", "\x1b$*H", "\x1b$)E", "\x1b$+I", "\x1b$+J", "\x1b$+K", "\x1b$+L", "\x1b$+M", "\x0e", "\x0f", "\x1bN", "\x1bO", "\n", "\r", "\x1b", "\x1b$", "\x1b$)", "\x1b$*", "\x1b$*H\x1bN!!", "\x1b$+I\x1bO!!"}) t.push_back(s);
    if (has("iso2022_kr")) for (auto s : {"\x1b$)C", "\x0e", "\x0f", "\n", "\r", "\x1b", "\x1b$", "\x1b$)"}) t.push_back(s);
    if (i == "hz") for (auto s : {"~{", "~}", "~~", "~\n", "~", "\n", "VP", "~{VP", "~}~{"}) t.push_back(s);
    if (i == "utf7") for (auto s : {"+", "-", "+-", "+AG", "/", "+AGEAYg-", "+2AHcAA-", "+2AA-", "+3AA-", "+AAA", "A", "AG", "AAA", "\n", "~", "\\", "+AGE", "!", "*"}) t.push_back(s);
    if (i == "utf8") for (auto s : {"\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xed\xa0\x80", "\xed\xbf\xbf", "\xef\xbf\xbe", "\xef\xbf\xbf", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", "\xf4\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xf8\x88\x80\x80\x80", "\xfc\x84\x80\x80\x80\x80", "\xfe", "\xff", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xef\xbb\xbf", "\x80", "\xbf"}) t.push_back(s);
    if (has("utf16") || has("ucs2")) for (auto s : {L("\xfe\xff"), L("\xff\xfe"), L("\xd8\x00"), L("\x00\xd8"), L("\xdc\x00"), L("\x00\xdc"), L("\xd8\x3d\xde\x00"), L("\x3d\xd8\x00\xde"), L("\xdb\xff\xdf\xff"), L("\x00"), L("\xff\xff"), L("\x00\x41"), L("\x41\x00"), L("\xd8")}) t.push_back(s);
    if (has("utf32") || has("ucs4")) for (auto s : {L("\x00\x00\xfe\xff"), L("\xff\xfe\x00\x00"), L("\x00\x00\xd8\x00"), L("\x00\xd8\x00\x00"), L("\x00\x10\xff\xff"), L("\xff\xff\x10\x00"), L("\x00\x11\x00\x00"), L("\x00\x00\x11\x00"), L("\x7f\xff\xff\xff"), L("\xff\xff\xff\x7f"), L("\x80\x00\x00\x00"), L("\x00\x00\x00\x80"), L("\x00\x00\x00\x41"), L("\x41\x00\x00\x00"), L("\x00"), L("\xff\xfe"), L("\x00\x00\xff\xfe")}) t.push_back(s);
    if (i == "c99" || i == "java") for (auto s : {"\\", "\\u", "\\U", "\\u00e9", "\\u00E9", "\\U0001f600", "\\U0010FFFF", "\\ud83d\\ude00", "\\uD83D\\uDE00", "\\ud83d", "\\ude00", "\\u0041", "\\u0024", "\\u0040", "\\u0060", "\\u00g0", "\\u12", "\\U0000D800", "\\u005c", "\\\\", "\\ud83d\\u0041", "\\u0000"}) t.push_back(s);
    if (has("gb18030")) for (auto s : {"\x81\x30\x81\x30", "\x84\x31\xa4\x39", "\x84\x31\xa5\x30", "\x90\x30\x81\x30", "\xe3\x32\x9a\x35", "\xe3\x32\x9a\x36", "\x81\x30", "\x81\x30\x81", "\x81\x35\xf4\x37", "\x84\x31\x82\x36", "\xa6\xd9", "\xa8\xbf", "\xfe\x59", "\x80", "\xff", "\x81\x7f", "\x84\x30\x80\x30", "\x8f\x30\x81\x30"}) t.push_back(s);
    if (has("big5hkscs")) for (auto s : {"\x88\x62", "\x88\x64", "\x88\xa3", "\x88\xa5", "\x88\x66", "\x88\xa7", "\x87\x40", "\xc6\xa1"}) t.push_back(s);
    if (i == "euc_jisx0213") for (auto s : {"\xa4\xf7", "\xa4\xab", "\xab\xc4", "\xab\xf5", "\xa5\xf7", "\xa6\xf8", "\xab\xe0", "\xab\xe4", "\x8f\xa1\xa1", "\x8e\xb1"}) t.push_back(s);
    if (i == "shift_jisx0213") for (auto s : {"\x82\xf5", "\x82\xa9", "\x86\x63", "\x86\x95", "\x83\x97", "\x83\xf6", "\x86\x80", "\x86\x84", "\xfc\x4b", "\xb1"}) t.push_back(s);
    if (has("euc_jp")) for (auto s : {"\x8f\xb0\xa1", "\x8e\xb1", "\x8f", "\x8e", "\x8f\xb0", "\x8e\xe0"}) t.push_back(s);
    if (has("euc_tw")) for (auto s : {"\x8e\xa1\xa4\xa1", "\x8e\xa2\xa1\xa1", "\x8e\xa3\xa1\xa1", "\x8e\xaf\xa1\xa1", "\x8e", "\x8e\xa2", "\x8e\xa2\xa1", "\x8e\xb0\xa1\xa1"}) t.push_back(s);
    if (i == "cp1255") for (auto s : {"\xe9\xc4", "\xf9\xcc\xd1", "\xe5\xc9", "\xf9", "\xcc", "\xd1", "\xc7", "\xc8", "\xc9", "\xe0\xcb", "\xd4\xc9", "\xe0", "\xd1\xcc"}) t.push_back(s);
    if (i == "cp1258") for (auto s : {"a\xcc", "\xe2\xec", "\xf5\xde", "E\xd2", "o\xf2", "\xcc", "\xec", "\xa8\xec", "y\xde"}) t.push_back(s);
    if (i == "tcvn") for (auto s : {"a\xb0", "\xa9\xb3", "\xad\xb2", "E\xb1", "o\xb4", "\xb0", "\xb3", "y\xb2"}) t.push_back(s);
    auto &c = e.combos;
    if (has("jisx0213") || i == "iso2022_jp3") for (auto &x : {text{0x304B, 0x309A}, text{0x30C8, 0x309A}, text{0x31F7, 0x309A}, text{0x00E6, 0x0300}, text{0x0254, 0x0300}, text{0x0254, 0x0301}, text{0x028C, 0x0301}, text{0x0259, 0x0300}, text{0x025A, 0x0301}, text{0x02E9, 0x02E5}, text{0x02E5, 0x02E9}, text{0x02E5}, text{0x02E9}, text{0x309A}, text{0x0300}, text{0x0301}, text{0x304B}, text{0x00E6}, text{0x304B, 0x304B, 0x309A}, text{0x02E9, 0x02E9, 0x02E5}}) c.push_back(x);
    if (has("jisx0213") || i == "iso2022_jp3") {
        for (uint32_t b : {0x304Bu, 0x304Du, 0x304Fu, 0x3051u, 0x3053u, 0x30ABu, 0x30ADu, 0x30AFu, 0x30B1u, 0x30B3u, 0x30BBu, 0x30C4u, 0x30C8u, 0x31F7u}) c.push_back({b, 0x309A});
        for (uint32_t b : {0x00E6u, 0x0254u, 0x028Cu, 0x0259u, 0x025Au}) { c.push_back({b, 0x300}); c.push_back({b, 0x301}); }
    }
    if (has("big5hkscs")) for (auto &x : {text{0xCA, 0x304}, text{0xCA, 0x30C}, text{0xEA, 0x304}, text{0xEA, 0x30C}, text{0xCA}, text{0xEA}, text{0xCA, 0xCA, 0x30C}, text{0xEA, 0xCA}, text{0xCA, 0xCA}}) c.push_back(x);
    if (i == "cp1255") for (auto &x : {text{0x5D0, 0x5B7}, text{0x5E9, 0x5C1}, text{0x5E9, 0x5BC, 0x5C1}, text{0xFB2C}, text{0xFB2A}, text{0xFB49, 0x5C1}, text{0x5D9, 0x5B4}, text{0xFB1D}, text{0x5F2, 0x5B7}, text{0x5D5, 0x5B9}, text{0x5BC}}) c.push_back(x);
    if (i == "cp1258" || i == "tcvn") for (auto &x : {text{0x61, 0x300}, text{0xE2, 0x301}, text{0x1EA4}, text{0x1EF9}, text{0x1AF, 0x303}, text{0x79, 0x309}, text{0x45, 0x323}, text{0x300}, text{0x1F4F}, text{0x1E64}, text{0x1D6}, text{0x385}}) c.push_back(x);
    if (i == "utf7") for (auto &x : {text{'+'}, text{'-'}, text{'+', '-'}, text{0xE9, '-'}, text{0xE9, 'A'}, text{0xE9, 0xE9}, text{0x1F600}, text{0x10FFFF}, text{'~'}, text{'\\'}, text{0xE9, '/'}, text{0xE9, '+'}, text{0xE9, ' '}}) c.push_back(x);
    if (i == "hz") for (auto &x : {text{'~'}, text{'~', '~'}, text{0x4E2D, '~'}, text{'~', '{'}, text{0x4E2D, '\n'}, text{'~', '\n'}}) c.push_back(x);
    c.push_back({'\n'}); c.push_back({'\r', '\n'});
    if (has("cn") || has("big5") || i == "gbk" || has("gb") || has("jp") || has("euc") || has("sjis") || has("cp9")) for (auto &x : {text{0x3000}, text{0xFF01}, text{0x2015}, text{0x2014}, text{0xFF5E}, text{0x301C}, text{0x2225}, text{0x2016}, text{0xFFE0}, text{0xA2}, text{0x20AC}, text{0xB7}, text{0x30FB}, text{0xA5}, text{0x203E}}) c.push_back(x);
    // Only sequences over the encoding's repertoire.
    c.erase(std::remove_if(c.begin(), c.end(), [&](const text &x) {
        bool lacks = false; for (auto u : x) if (!e.rep.has(u)) lacks = true;
        if (!lacks) return false;
        Result r = run(REF, E[PIV], e, 0, pack(x)); if (r.status || r.count || r.flush) return true;
        if (x.size() == 2) e.pairs[(uint64_t)x[0] << 32 | x[1]] = true;
        return false; }), c.end());
    for (uint32_t u : {0x41u, 0x0Au, 0xE9u, 0x3B1u, 0x416u, 0x5D0u, 0x627u, 0xE01u, 0x3042u, 0x30A2u, 0xFF71u, 0x4E00u, 0x4E02u, 0x4E04u, 0x4E0Fu, 0x5159u, 0xAC00u, 0x20089u, 0x2000Bu, 0xA5u, 0x203Eu, 0x20ACu, 0x3007u, 0x4E5Bu, 0xE000u, 0x1F600u})
        if (e.rep.has(u)) e.reprs.push_back(u);
}
#undef L

void load_encodings() {
    if (!E.empty()) return;
    std::ifstream f(datadir() + "/aliases.txt"); std::string l;
    while (std::getline(f, l)) {
        std::stringstream s(l); Enc e; s >> e.id; std::string n; while (s >> n) e.names.push_back(n);
        e.idx = (int)E.size(); byid[e.id] = e.idx; E.push_back(e);
    }
    std::ifstream rf(datadir() + "/repertoire.bin", std::ios::binary); std::string rb((std::istreambuf_iterator<char>(rf)), {});
    if (E.size() < 100 || rb.size() < 1000) { fprintf(stderr, "cannot read frozen data in %s\n", datadir().c_str()); exit(2); }
    size_t p = 0;
    for (auto &e : E) {
        if (REF.lookup(e.names[0].c_str()) != e.idx) { fprintf(stderr, "frozen list and reference disagree on %s\n", e.id.c_str()); exit(2); }
        e.sut = SUT.lookup(e.names[0].c_str());
        e.rep = rd(rb, p); e.rt = rd(rb, p);
        uint32_t last = ~0u; for (auto &r : e.rep.r) for (uint32_t b = r.lo >> 8; b <= r.hi >> 8; b++) if (b != last) e.blocks.push_back(last = b);
        e.has_fffd = e.rep.has(0xFFFD);
        const std::string &i = e.id; auto pre = [&](const char *s) { return i.rfind(s, 0) == 0; };
        e.unit = pre("ucs4") || pre("utf32") ? 4 : pre("ucs2") || pre("utf16") ? 2 : 1;
        e.stateful = pre("iso2022") || i == "hz" || i == "utf7";
        e.composing = i == "cp1255" || i == "cp1258" || i == "tcvn" || i == "big5hkscs1999" || i == "big5hkscs2001" || i == "big5hkscs2004" || i == "big5hkscs2008" || i == "euc_jisx0213" || i == "shift_jisx0213" || i == "iso2022_jp3";
        e.bom = i == "ucs2" || i == "ucs4" || i == "utf16" || i == "utf32";
        e.full = e.rep.n > 1000000;
    }
    PIV = enc("ucs4internal").idx;
    for (auto &e : E) specials(e);
}

bool Enc::has(const text &before, uint32_t c) const {
    if (rep.has(c)) return true;
    if (c > 0x10FFFF || (c >= 0xD800 && c < 0xE000)) { // not characters, but UCS-4 and the escape encodings let them pass
        Result r = run(REF, E[PIV], *this, 0, pack({c})); return r.status == 0 && r.count == 0;
    }
    return !before.empty() && !pairs.empty() && pairs.count((uint64_t)before.back() << 32 | c);
}
// ------------------------------------------------------------------ guarded calls
void *xopen(Lib &L, const Enc &f, const Enc &t, int flags) {
    int fi = &L == &SUT ? f.sut : f.idx, ti = &L == &SUT ? t.sut : t.idx;
    if (fi < 0 || ti < 0) fail("the encoding %s or %s is not known under its name any more", f.names[0].c_str(), t.names[0].c_str());
    void *h = L.open(fi, ti, flags);
    if (h == (void *)-1 || !h) fail("%s: opening %s -> %s failed (errno %d)", L.name, f.id.c_str(), t.id.c_str(), errno);
    return h;
}
size_t ample(size_t n) { return n * 14 + 64; }

#if defined(__SANITIZE_ADDRESS__)
#define VP_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VP_ASAN 1
#endif
#endif

// A block whose end touches an inaccessible page.
struct Arena {
    char *base = nullptr; size_t size = 0;
    char *end() { return base + size; }
    void need(size_t n) {
        if (n <= size) return;
        size_t pg = 4096, sz = std::max<size_t>((n + pg - 1) / pg * pg, 64 * pg);
        if (base) munmap(base - pg, size + 2 * pg);
        char *m = (char *)mmap(nullptr, sz + 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(m, pg, PROT_NONE); mprotect(m + pg + sz, pg, PROT_NONE); base = m + pg; size = sz;
    }
};

Call call(Lib &L, void *cd, const char *in, size_t n, size_t cap, bool null_in) {
    Call c{}; 
    if (&L == &REF) {
        c.out.resize(cap ? cap : 1); char *ip = (char *)in, *op = &c.out[0]; size_t il = n, ol = cap; errno = 0; char dummy = 0; if (!ip) ip = &dummy;
        c.ret = null_in ? L.iconv(cd, nullptr, nullptr, &op, &ol) : L.iconv(cd, &ip, &il, &op, &ol);
        c.err = c.ret == (size_t)-1 ? errno : 0; c.used = null_in ? 0 : n - il; c.out.resize(cap - ol);
        return c;
    }
    const unsigned char FILL = 0xA5; const size_t RZ = 16;
#ifdef VP_ASAN
    char *ib = (char *)malloc(n ? n : 1), *ob = (char *)malloc(cap ? cap : 1);
    // A zero-sized buffer is passed as the end of a one-byte block, so that any access is caught.
    char *i0 = n ? ib : ib + 1, *o0 = cap ? ob : ob + 1;
#else
    static thread_local Arena ia, oa; ia.need(n + RZ); oa.need(cap + RZ);
    char *i0 = ia.end() - n, *o0 = oa.end() - cap;
    memset(o0 - RZ, FILL, RZ);
#endif
    if (n) memcpy(i0, in, n);
    if (cap) memset(o0, FILL, cap);
    char *ip = i0, *op = o0; size_t il = n, ol = cap; errno = 0;
    c.ret = null_in ? L.iconv(cd, nullptr, nullptr, &op, &ol) : L.iconv(cd, &ip, &il, &op, &ol);
    c.err = c.ret == (size_t)-1 ? errno : 0;
    std::string bad;
    if (op < o0 || (size_t)(op - o0) > cap || (size_t)(op - o0) != cap - ol) bad = fmt("output pointer moved by %td, output count by %zd, capacity %zu", op - o0, (ssize_t)(cap - ol), cap);
    else if (ip < i0 || (size_t)(ip - i0) > n || (size_t)(ip - i0) != n - il) bad = fmt("input pointer moved by %td, input count by %zd, length %zu", ip - i0, (ssize_t)(n - il), n);
    else if (n && memcmp(i0, in, n) != 0) bad = "the input buffer was modified";
#ifndef VP_ASAN
    else { for (size_t k = 1; k <= RZ; k++) if ((unsigned char)o0[-(ptrdiff_t)k] != FILL) bad = "bytes before the output buffer were modified"; }
#endif
    if (bad.empty()) {
        c.used = n - il; c.out.assign(o0, cap - ol);
        if (c.ret == (size_t)-1 && c.err != EILSEQ && c.err != EINVAL && c.err != E2BIG) bad = fmt("the call failed with the undocumented error code %d", c.err);
        if (c.ret == (size_t)-1 && null_in && c.err == EINVAL) bad = "a reset reported incomplete input";
        if (c.ret != (size_t)-1 && !null_in && il != 0) bad = fmt("the call reported success with %zu input bytes left", il);
    }
#ifdef VP_ASAN
    free(ib); free(ob);
#endif
    if (!bad.empty()) fail("%s: %s (input %s, capacity %zu)", L.name, bad.c_str(), hex(bytes(in ? in : "", in ? n : 0)).c_str(), cap);
    return c;
}

std::string show(const Result &r) {
    return fmt("{status %s, consumed %zu, count %zu, flush %s, out ", r.status == 0 ? "ok" : r.status == EILSEQ ? "EILSEQ" : r.status == EINVAL ? "EINVAL" : "?", r.consumed, r.count, r.flush == 0 ? "ok" : r.flush == -1 ? "none" : "EILSEQ") + hex(r.out) + "}";
}
Result run(Lib &L, void *cd, const bytes &in, bool flush) {
    Result R; size_t cap = ample(in.size());
    Call c = call(L, cd, in.data(), in.size(), cap);
    if (c.ret == (size_t)-1) { if (c.err == E2BIG) fail("%s: full-buffer error with %zu bytes of room for %zu bytes of input", L.name, cap, in.size()); R.status = c.err; }
    else R.count += c.ret;
    R.out = c.out; R.consumed = c.used; R.flush = -1;
    if (flush && R.status == 0) {
        Call d = call(L, cd, nullptr, 0, 64, true);
        if (d.ret == (size_t)-1) { if (d.err == E2BIG) fail("%s: full-buffer error of a reset with 64 bytes of room", L.name); R.flush = d.err; }
        else { R.flush = 0; R.count += d.ret; }
        R.out += d.out;
    }
    return R;
}
Result run(Lib &L, const Enc &f, const Enc &t, int flags, const bytes &in, bool flush) { Cd cd(L, f, t, flags); return run(L, cd, in, flush); }
bytes pack(const text &t) { return bytes((const char *)t.data(), t.size() * 4); }
text unpack(const bytes &b) { text t(b.size() / 4); if (!t.empty()) memcpy(t.data(), b.data(), t.size() * 4); return t; }
bytes ref_encode(const Enc &e, const text &t, bool flush) { return run(REF, E[PIV], e, 1, pack(t), flush).out; }
void same(const char *what, const Result &got, const Result &want) {
    if (got != want) fail("%s: got %s, expected %s", what, show(got).c_str(), show(want).c_str());
}

// ------------------------------------------------------------------ generators
size_t gen_len(Src &S, size_t max) { return S.small((uint32_t)max); }

Enc &gen_enc(Src &S) {
    static std::vector<int> hard;
    if (hard.empty()) { for (auto &e : E) if (e.stateful || e.composing || e.unit > 1 || e.full || e.rep.n > 3000) hard.push_back(e.idx); }
    switch (S.draw(8)) {
    case 0: case 1: case 2: return E[S.draw((uint32_t)E.size())];
    case 3: case 4: { static std::vector<int> st; if (st.empty()) for (auto &e : E) if (e.stateful || e.composing) st.push_back(e.idx); return E[st[S.draw((uint32_t)st.size())]]; }
    case 5: { static std::vector<int> u; if (u.empty()) for (auto &e : E) if (e.full || e.unit > 1) u.push_back(e.idx); return E[u[S.draw((uint32_t)u.size())]]; }
    default: return E[hard[S.draw((uint32_t)hard.size())]];
    }
}
static uint32_t from_block(Src &S, const Enc &e, const RangeSet &R) {
    uint32_t b = e.blocks[S.draw((uint32_t)e.blocks.size())];
    uint64_t lo = R.index_of(b << 8), hi = R.index_of((b + 1) << 8);
    if (lo >= hi) return R.at(S.draw((uint32_t)R.n));
    return R.at(lo + S.draw((uint32_t)(hi - lo)));
}
static text gen_over(Src &S, Enc &e, const RangeSet &R, size_t maxlen) {
    text t; size_t n = gen_len(S, maxlen);
    static const uint32_t edge[] = {0, 9, 0x0A, 0x0D, 0x1F, 0x20, 0x7E, 0x7F, 0x80, 0x85, 0x9F, 0xA0, 0xFF, 0x100, 0x17F, 0x3FF, 0x7FF, 0x800, 0xFFF, 0x1000, 0x2028, 0x3FFF, 0x7FFF, 0xD7FF, 0xE000, 0xF8FF, 0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x1FFFF, 0x20000, 0x2A6DF, 0xE0001, 0xFFFFF, 0x100000, 0x10FFFF};
    while (t.size() < n) {
        uint32_t c = 0; bool ok = true;
        switch (S.draw(12)) {
        case 0: c = 'a' + S.draw(26); break;
        case 1: c = 0x20 + S.draw(95); break;
        case 2: case 3: case 4: c = from_block(S, e, R); break;
        case 5: case 6: c = R.at(S.draw((uint32_t)R.n)); break;
        case 7: if (!e.combos.empty()) { const text &x = S.pick(e.combos); bool all = true; if (&R != &e.rep) for (auto u : x) if (!R.has(u)) all = false; if (all) t.insert(t.end(), x.begin(), x.end()); } ok = false; if (S.draw(8) == 7) n = t.size(); break;
        case 8: c = edge[S.draw(sizeof edge / 4)]; break;
        case 9: if (t.empty()) ok = false; else c = t.back(); break;
        case 10: if (t.empty()) ok = false; else { uint64_t i = R.index_of(t.back()); i = std::min<uint64_t>(R.n - 1, i + S.draw(5)); c = R.at(i); } break;
        default: if (e.reprs.empty()) ok = false; else c = S.pick(e.reprs); break;
        }
        if (ok) { if (!R.has(c)) { if (n > 0) n--; continue; } t.push_back(c); }
        else if (n > 0 && t.size() < n && S.draw(4) == 3) n--;
    }
    return t;
}
text gen_text(Src &S, Enc &e, size_t maxlen) { return gen_over(S, e, e.rep, maxlen); }
text gen_text_rt(Src &S, Enc &e, size_t maxlen) { return gen_over(S, e, e.rt, maxlen); }
uint32_t any_cp(Src &S) {
    uint32_t c;
    switch (S.draw(10)) {
    case 0: c = 0x20 + S.draw(95); break;
    case 1: c = S.draw(0x100); break;
    case 2: c = S.draw(0x800); break;
    case 3: case 4: c = S.draw(0x10000); break;
    case 5: c = 0x10000 + S.draw(0x20000); break;
    case 6: c = 0xE0000 + S.draw(0x100); break;
    case 7: c = 0x4E00 + S.draw(0x5200); break;
    case 8: c = 0xE000 + S.draw(0x1900); break;
    default: c = S.draw(0x110000); break;
    }
    if (c >= 0xD800 && c < 0xE000) c -= 0x1000;
    return c;
}
text gen_any(Src &S, Enc &e, size_t maxlen) {
    text t; size_t n = gen_len(S, maxlen);
    while (t.size() < n) {
        switch (S.draw(6)) {
        case 0: case 1: case 2: { text x = gen_over(S, e, e.rep, std::min<size_t>(maxlen, 8)); t.insert(t.end(), x.begin(), x.end()); if (x.empty() && n) n--; break; }
        case 3: t.push_back(0xE0000 + S.draw(0x84)); break;
        default: t.push_back(any_cp(S)); break;
        }
    }
    if (t.size() > maxlen) t.resize(maxlen);
    return t;
}
bytes mutate(Src &S, Enc &e, bytes b) {
    uint32_t k = 1 + S.draw(3);
    while (k--) {
        size_t p = S.draw((uint32_t)b.size() + 1);
        switch (S.draw(8)) {
        case 0: b.resize(p); break;
        case 1: if (p < b.size()) b[p] = (char)S.draw(256); break;
        case 2: b.insert(b.begin() + p, (char)S.draw(256)); break;
        case 3: if (p < b.size()) b.erase(p, 1 + S.draw(3)); break;
        case 4: if (!e.toks.empty()) b.insert(p, S.pick(e.toks)); break;
        case 5: if (p < b.size()) b[p] ^= (char)(1 << S.draw(8)); break;
        case 6: if (p < b.size()) { bytes c = b.substr(p, 1 + S.draw(4)); b.insert(S.draw((uint32_t)b.size() + 1), c); } break;
        default: b.insert(b.begin() + p, (char)(0x80 + S.draw(128))); break;
        }
    }
    return b;
}
// Lazily explored tree of the byte sequences that the reference decodes from the initial state.
struct Trie { std::map<bytes, std::vector<std::pair<unsigned char, bool>>> m; };
static std::vector<Trie> tries;
static const std::vector<std::pair<unsigned char, bool>> &kids(Enc &e, const bytes &p) {
    if (tries.empty()) tries.resize(E.size());
    auto &m = tries[e.idx].m; auto it = m.find(p); if (it != m.end()) return it->second;
    auto &v = m[p];
    for (int b = 0; b < 256; b++) {
        bytes s = p + (char)b; Cd cd(REF, e, E[PIV], 0); Call c = call(REF, cd, s.data(), s.size(), 256);
        if (c.ret != (size_t)-1) v.push_back({(unsigned char)b, true});
        else if (c.err == EINVAL && s.size() < 6) v.push_back({(unsigned char)b, false});
    }
    return v;
}
static bytes walk(Src &S, Enc &e) {
    bytes p;
    for (int d = 0; d < 6; d++) {
        auto &k = kids(e, p); if (k.empty()) return p;
        auto &x = k[S.draw((uint32_t)k.size())]; p += (char)x.first; if (x.second) break;
    }
    return p;
}
bytes gen_valid(Src &S, Enc &e, size_t maxlen) {
    bytes b;
    if (S.flip(1, 3)) { size_t n = gen_len(S, maxlen / 2); for (size_t i = 0; i < n; i++) b += walk(S, e); }
    else { text t = gen_text(S, e, maxlen / 2); b = ref_encode(e, t, !S.flip(1, 4)); }
    // Keep the decodable prefix only.
    Result r = run(REF, e, E[PIV], 0, b);
    if (r.status != 0) b.resize(r.consumed);
    return b;
}
bytes gen_bytes(Src &S, Enc &e, size_t maxlen) {
    bytes b;
    switch (S.draw(8)) {
    case 0: case 1: case 2: b = gen_valid(S, e, maxlen); break;
    case 3: case 4: b = mutate(S, e, gen_valid(S, e, maxlen)); break;
    case 5: { size_t n = gen_len(S, maxlen); for (size_t i = 0; i < n; i++) b += (char)S.draw(256); break; }
    case 6: { size_t n = gen_len(S, 12); for (size_t i = 0; i < n; i++) switch (S.draw(3)) { case 0: b += walk(S, e); break; case 1: if (!e.toks.empty()) b += S.pick(e.toks); break; default: b += (char)(S.draw(2) ? 0x21 + S.draw(94) : S.draw(256)); } break; }
    default: { size_t n = 1 + S.draw(3); for (size_t i = 0; i < n; i++) { b += gen_valid(S, e, maxlen / 4); if (!e.toks.empty() && S.draw(2)) b += S.pick(e.toks); if (S.draw(4) == 3) b = mutate(S, e, b); } break; }
    }
    if (b.size() > 4 * maxlen) b.resize(4 * maxlen);
    return b;
}
} // namespace vp
