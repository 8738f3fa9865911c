// C12: byte order and byte-order marks. Oracle: a model of the Unicode encoding forms written here, independent of the reference.
#include "stream.hpp"
using namespace vp;
enum Order { MARK, BE, LE };
struct Form { const char *id; int unit; bool utf; Order ord; }; // utf: UTF-16/32 (as opposed to UCS-2/4)
static const Form FORMS[] = {
    {"ucs2", 2, false, MARK}, {"ucs2be", 2, false, BE}, {"ucs2le", 2, false, LE}, {"ucs2internal", 2, false, LE}, {"ucs2swapped", 2, false, BE},
    {"ucs4", 4, false, MARK}, {"ucs4be", 4, false, BE}, {"ucs4le", 4, false, LE}, {"ucs4internal", 4, false, LE}, {"ucs4swapped", 4, false, BE},
    {"utf16", 2, true, MARK}, {"utf16be", 2, true, BE}, {"utf16le", 2, true, LE}, {"utf32", 4, true, MARK}, {"utf32be", 4, true, BE}, {"utf32le", 4, true, LE}};
enum { NF = 16 };
static Enc &FE(int i) { static Enc *v[NF]; if (!v[i]) v[i] = &enc(FORMS[i].id); return *v[i]; }
static bool sur(uint32_t c) { return c >= 0xD800 && c < 0xE000; }
static uint32_t get(const bytes &b, size_t i, int u, bool le) { uint32_t v = 0; for (int k = 0; k < u; k++) v |= (uint32_t)(unsigned char)b[i + (le ? k : u - 1 - k)] << (8 * k); return v; }
static void put(bytes &b, uint32_t v, int u, bool le) { for (int k = 0; k < u; k++) b += (char)(v >> (8 * (le ? k : u - 1 - k))); }
struct Dec { text t; int status = 0; size_t consumed = 0; bool unspec = false; };
// Decodes; le is the learned byte order of a mark-sensitive form, kept by the caller.
static Dec decode(const Form &f, bool &le, const bytes &b) {
    Dec d; size_t i = 0;
    while (i < b.size()) {
        if (b.size() - i < (size_t)f.unit) { d.status = EINVAL; break; }
        uint32_t v = get(b, i, f.unit, f.ord == MARK ? le : f.ord == LE);
        if (f.ord == MARK && v == 0xFEFF) { i += f.unit; continue; }
        if (f.ord == MARK && v == (f.unit == 2 ? 0xFFFEu : 0xFFFE0000u)) { le = !le; i += f.unit; continue; }
        if (f.unit == 4 && !f.utf && f.ord != MARK && v > 0x7FFFFFFF) { d.unspec = true; break; } // not specified: the explicit UCS-4 forms let such values pass
        if (f.unit == 4) { if (f.utf ? v > 0x10FFFF || sur(v) : v > 0x7FFFFFFF) { d.status = EILSEQ; break; } d.t.push_back(v); i += 4; continue; }
        if (!sur(v)) { d.t.push_back(v); i += 2; continue; }
        if (!f.utf || v >= 0xDC00) { d.status = EILSEQ; break; }
        if (b.size() - i < 4) { d.status = EINVAL; break; }
        uint32_t w = get(b, i + 2, 2, f.ord == MARK ? le : f.ord == LE);
        if (w < 0xDC00 || w > 0xDFFF) { d.status = EILSEQ; break; }
        d.t.push_back(0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00)); i += 4;
    }
    d.consumed = i; return d;
}
static bool has(const Form &f, uint32_t c) {
    if (f.unit == 4) return f.utf ? c <= 0x10FFFF && !sur(c) : c <= 0x7FFFFFFF;
    if (sur(c) || (f.ord == MARK && c == 0xFFFE)) return false;
    return c <= (f.utf ? 0x10FFFFu : 0xFFFFu);
}
// Encodes a whole text; characters that the form lacks become U+FFFD, language tags vanish. count: the substitutions.
static bytes encode(const Form &f, const text &t, size_t &count) {
    bytes b; bool le = f.ord == LE, marked = !(f.ord == MARK && f.utf);
    for (uint32_t c : t) {
        if (!has(f, c)) { if (c >> 7 == 0xE0000 >> 7) continue; count++; c = 0xFFFD; }
        if (!marked) { put(b, 0xFEFF, f.unit, false); marked = true; }
        if (f.unit == 4 || c < 0x10000) put(b, c, f.unit, le); else { put(b, 0xD800 + ((c - 0x10000) >> 10), 2, le); put(b, 0xDC00 + ((c - 0x10000) & 0x3FF), 2, le); }
    }
    return b;
}
static uint32_t cp(Src &S) { static const uint32_t e[] = {0, 'a', 0xFF, 0xFE, 0xFEFF, 0xFFFE, 0xFFFF, 0xFFFD, 0x10000, 0x10FFFF, 0xFE, 0xFF00, 0xD7FF, 0xE000, 0xE0041, 0xFDD0, 0x1FEFF, 0xFEFF0, 0xFE00, 0xFFE}; switch (S.draw(4)) { case 0: return e[S.draw(sizeof e / 4)]; case 1: return 0x20 + S.draw(95); default: return any_cp(S); } }
static bytes input(Src &S, const Form &f, size_t max) {
    bytes b; size_t n = gen_len(S, max); bool le = f.ord == LE || (f.ord == MARK && S.draw(2));
    for (size_t i = 0; i < n; i++) switch (S.draw(10)) {
        case 0: put(b, 0xFEFF, f.unit, false); if (S.draw(3)) le = false; break;
        case 1: put(b, 0xFEFF, f.unit, true); if (S.draw(3)) le = true; break;
        case 2: if (S.draw(3) == 0) put(b, f.unit == 2 ? 0xD800 + S.draw(0x800) : S.draw(2) ? 0x110000 + S.draw(16) : S.draw(3) ? 0xFFFE0000u - 1 + S.draw(3) : 0x7FFFFFFFu + S.draw(2), f.unit, le); break;
        default: { uint32_t c = cp(S); if (f.unit == 2 && c > 0xFFFF) { if (!f.utf) { c &= 0xFFFF; if (sur(c)) c -= 0x800; put(b, c, 2, le); } else { put(b, 0xD800 + ((c - 0x10000) >> 10), 2, le); put(b, 0xDC00 + (c & 0x3FF), 2, le); } } else put(b, c, f.unit, le); } }
    if (S.draw(6) == 0 && b.size()) b.resize(b.size() - 1 - S.draw(std::min<uint32_t>(3, (uint32_t)b.size())));
    return b;
}
static bool interesting(const bytes &b, int u) { for (size_t i = 0; i + u <= b.size(); i += u) { uint32_t x = get(b, i, u, false), y = get(b, i, u, true); if (x == 0xFEFF || y == 0xFEFF) return true; } return false; }
// A history of texts through one descriptor, in any pieces and rooms, with resets between them.
CASE(c12_hist, "c12_hist") {
    int a = S.draw(NF), b = S.draw(NF); if (S.draw(3) == 0) a = std::vector<int>{0, 5, 10, 13}[S.draw(4)]; if (S.draw(3) == 0) b = std::vector<int>{0, 5, 10, 13}[S.draw(4)];
    const Form &f = FORMS[a], &t = FORMS[b]; Cd cd(SUT, FE(a), FE(b), 0); bool le = false, any = false; int n = 1 + S.draw(4); std::string log;
    for (int k = 0; k < n; k++) {
        bytes in = input(S, f, 12); if (S.flip(1, 300)) in = amplify(S, in, 10000); bool before = le; Dec d = decode(f, le, in); if (d.unspec) throw Discard{}; size_t count = 0; bytes want = encode(t, d.t, count);
        uint32_t pm = S.draw(4), rm = S.draw(3); bool clean = true; Result g; size_t mul = in.size() > 1000 ? 100 : 1;
        if (pm == 3) { g = run(SUT, cd, in); } else { Plan p{[&] { return (pm == 0 ? 1 : pm == 1 ? S.draw(7) : in.size()) * mul; }, [&] { return (rm == 0 ? S.draw(5) : rm == 1 ? S.draw(16) : 14 * in.size() + 64) * (rm < 2 ? mul : 1); }}; g = stream(SUT, cd, in, p, &clean); }
        log += " [" + hex(in) + "]";
        if (g.out != want || g.status != d.status || g.consumed != d.consumed || g.flush > 0 || (clean && !d.status && g.count != count))
            fail("%s, %s order, texts%s: the last gives %s; expected %s, %zu consumed, error %d, %zu substituted", pairname(FE(a), FE(b)).c_str(), before ? "learned little-endian" : "big-endian", log.c_str(), show(g).c_str(), hex(want).c_str(), d.consumed, d.status, count);
        any |= interesting(in, f.unit) || k > 0;
        if (g.status || S.draw(3) == 0) { if (SUT.iconv(cd, nullptr, nullptr, nullptr, nullptr)) fail("reset fails"); log += " reset"; } 
    }
    if (any) nontrivial(hash_str(log, mix(a, b)));
    label(f.ord == MARK ? "mark-sensitive source" : "explicit source"); sample(pairname(FE(a), FE(b)) + log);
}
// The one-shot forms, and discarding, from every order.
CASE(c12_oneshot, "c12_oneshot") {
    int a = S.draw(NF), b = S.draw(NF); const Form &f = FORMS[a], &t = FORMS[b]; Cd cd(SUT, FE(a), FE(b), 0); bool le = false; int n = 1 + S.draw(3); std::string log;
    for (int k = 0; k < n; k++) {
        bytes in = input(S, f, 10); log += " [" + hex(in) + "]"; bool l2 = le; Dec d = decode(f, l2, in); if (d.unspec) throw Discard{}; size_t count = 0; bytes want = encode(t, d.t, count);
        size_t sz = SUT.result_size(cd, in.data(), in.size());
        if (sz != (d.status ? (size_t)-1 : want.size())) fail("%s, texts%s: predicted size of the last %zd, expected %zd", pairname(FE(a), FE(b)).c_str(), log.c_str(), (ssize_t)sz, d.status ? (ssize_t)-1 : (ssize_t)want.size());
        if (d.status) { break; } // whether a failed measurement keeps the order is not specified
        char *p = nullptr; size_t m = 0; int r = SUT.convert(cd, in.data(), in.size(), &p, &m); bytes got = r == 0 ? bytes(p, m) : bytes(); free(p); le = l2;
        if (r || got != want) fail("%s, texts%s: one-shot conversion of the last gives %d, %s, expected %s", pairname(FE(a), FE(b)).c_str(), log.c_str(), r, hex(got).c_str(), hex(want).c_str());
        if (interesting(in, f.unit)) nontrivial(hash_str(log, mix(a, b)));
    }
    sample(pairname(FE(a), FE(b)) + log);
}
// Every 16-bit unit, and every mark, after and before each order, in every form.
SWEEP(c12_units, "c12_units", NF * 64) {
    int a = I / 64; const Form &f = FORMS[a]; size_t part = I % 64; int b = 6; // to UCS-4BE
    for (uint32_t v = (uint32_t)part * 1024; v < (part + 1) * 1024; v++) for (int k = 0; k < 6; k++) {
        bytes in; if (k & 1) put(in, 0xFEFF, f.unit, k & 2); if (k >= 4) put(in, 0x4E2D, f.unit, false); put(in, v, f.unit, k & 2); put(in, 'z', f.unit, k & 2);
        bool le = false; Dec d = decode(f, le, in); if (d.unspec) continue; size_t count = 0; bytes want = encode(FORMS[b], d.t, count); Result g = run(SUT, FE(a), FE(b), 0, in);
        if (g.out != want || g.status != d.status || g.consumed != d.consumed) fail("%s: %s gives %s, expected %s, %zu consumed, error %d", FE(a).names[0].c_str(), hex(in).c_str(), show(g).c_str(), hex(want).c_str(), d.consumed, d.status);
        if (v >= 0xFE00 || sur(v) || k) nontrivial(hash_str(in, a)); evals(1);
    }
    label(FE(a).names[0]);
}
// Every code point encoded singly and as second character, in every form.
SWEEP(c12_enc, "c12_enc", NF * 68) {
    int b = I / 68; const Form &t = FORMS[b]; uint32_t part = I % 68; 
    for (uint32_t c = part * 0x4000; c < (part + 1) * 0x4000; c++) {
        if (sur(c)) continue; text x{c}; if (c % 3 == 1) x = {'q', c}; else if (c % 3 == 2) x = {c, 0x1F600};
        size_t count = 0; bytes want = encode(t, x, count); Result g = run(SUT, E[PIV], FE(b), 0, pack(x));
        if (g.out != want || g.status || g.count != count) fail("%s to %s gives %s, expected %s, %zu substituted", show(x).c_str(), FE(b).names[0].c_str(), show(g).c_str(), hex(want).c_str(), count);
        if ((c & 7) == 0) nontrivial(mix(c, b)); evals(1);
    }
    label(FE(b).names[0]);
}
// Every pair of forms with every single cut of texts that begin with, contain or end in marks.
SWEEP(c12_cuts, "c12_cuts", NF * NF) {
    int a = I / NF, b = I % NF; const Form &f = FORMS[a], &t = FORMS[b];
    for (int v = 0; v < (thorough() ? 600 : 60); v++) {
        Src S; S.st = mix(mix(base_seed(), I), v); bytes in = input(S, f, 8);
        for (size_t cut = 0; cut <= in.size(); cut++) for (size_t room = 0; room < 10; room += 1 + (v & 1)) {
            bool le = false; Dec d = decode(f, le, in); if (d.unspec) continue; size_t count = 0; bytes want = encode(t, d.t, count); Cd cd(SUT, FE(a), FE(b), 0); bool first = true;
            Plan p{[&] { size_t k = first ? cut : in.size(); first = false; return k; }, [&] { return room; }}; Result g = stream(SUT, cd, in, p);
            if (g.out != want || g.status != d.status || g.consumed != d.consumed || g.flush > 0) fail("%s: %s cut at %zu, rooms of %zu, gives %s, expected %s, %zu consumed, error %d", pairname(FE(a), FE(b)).c_str(), hex(in).c_str(), cut, room, show(g).c_str(), hex(want).c_str(), d.consumed, d.status);
            // A new text after the reset keeps the learned order and gets its own mark.
            if (!g.status) { bytes in2; bool l2 = le; put(in2, 'k', f.unit, f.ord == MARK ? le : f.ord == LE); Dec e = decode(f, l2, in2); size_t c2 = 0; Result h = run(SUT, cd, in2); bytes w2 = encode(t, e.t, c2); if (h.out != w2) fail("%s: %s, reset, then %s gives %s, expected %s", pairname(FE(a), FE(b)).c_str(), hex(in).c_str(), hex(in2).c_str(), show(h).c_str(), hex(w2).c_str()); }
            evals(1); nontrivial(hash_str(in, mix(cut * 16 + room, I)));
        }
    }
    label("pairs");
}

// Marks behind long texts.
SWEEP(c12_far, "c12_far", NF * NF) {
    int a = I / NF, b = I % NF; const Form &f = FORMS[a], &t = FORMS[b]; Rng rng(mix(base_seed(), I));
    for (size_t n : {100u, 255u, 256u, 4095u, 4096u, 32768u, 65535u, 65536u, 70000u}) {
        bytes in; bool le = f.ord == LE; if (f.ord == MARK && rng(2)) { le = rng(2); put(in, 0xFEFF, f.unit, le); }
        size_t left = n; while (left--) { uint32_t c = rng(4) ? 0x20 + rng(95) : rng(2) ? 0x4E00 + rng(0x5000) : rng(2) ? 0xFF + rng(3) : 0xFE00 + rng(4); put(in, c, f.unit, le); }
        put(in, 0xFEFF, f.unit, !le); if (f.ord == MARK) le = !le; for (int k = 0; k < 5; k++) put(in, 'p' + k, f.unit, le); if (rng(2)) { put(in, 0xFEFF, f.unit, !le); put(in, 'x', f.unit, f.ord == MARK ? !le : le); }
        bool l2 = false; Dec d = decode(f, l2, in); if (d.unspec) continue; size_t count = 0; bytes want = encode(t, d.t, count); Cd cd(SUT, FE(a), FE(b), 0); Result g; bool clean = true; size_t pc = 1 + rng(500); if (rng(2)) g = run(SUT, cd, in); else { Plan p{[&] { return pc; }, [&] { return 64 + (size_t)rng(3000); }}; g = stream(SUT, cd, in, p, &clean); }
        if (g.out != want || g.status != d.status || g.consumed != d.consumed || (clean && !d.status && g.count != count)) fail("%s: %zu characters and marks (%s...): %zu bytes of output, status %d, consumed %zu; expected %zu bytes, status %d, consumed %zu", pairname(FE(a), FE(b)).c_str(), n, hex(in, 12).c_str(), g.out.size(), g.status, g.consumed, want.size(), d.status, d.consumed);
        evals(1); nontrivial(hash_str(in, I));
    }
    label("pairs");
}
