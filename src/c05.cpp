// C05: how the stream is cut and how much output room each call gets does not change the result.
#include "stream.hpp"
using namespace vp;

// The characters in a prefix of the input, leaving out an incomplete one at its end.
static bytes chars_of(Enc &f, int flags, const bytes &in) {
    Result x = run(REF, f, E[PIV], flags, in);
    if (x.status == EINVAL) x = run(REF, f, E[PIV], flags, in.substr(0, x.consumed));
    return x.status ? "?" : x.out;
}
static void judge(Enc &f, Enc &t, int flags, const bytes &in, const Result &whole, const Result &got, bool clean, const std::string &how) {
    Result w = whole, g = got;
    if (!clean || w.status) { w.count = g.count = 0; }
    // A shift sequence or byte-order mark directly before the offending character belongs to it in one call, but may already have been
    // consumed when the stream was cut behind it.
    if (w.status && g.status == w.status && g.consumed != w.consumed && (f.stateful || f.bom)) {
        size_t a = std::min(g.consumed, w.consumed), b = std::max(g.consumed, w.consumed);
        if (chars_of(f, flags, in.substr(0, a)) == chars_of(f, flags, in.substr(0, b))) { g.consumed = w.consumed; label("shift sequence consumed early"); }
    }
    if (g != w) fail("%s, flags %d, input %s: %s gives %s, one call gives %s", pairname(f, t).c_str(), flags, hex(in).c_str(), how.c_str(), show(g).c_str(), show(w).c_str());
    evals(1);
}
static Result one_call(Enc &f, Enc &t, int flags, const bytes &in) {
    Result w = run(SUT, f, t, flags, in), r = run(REF, f, t, flags, in);
    if (w != r) fail("%s, flags %d, input %s: one call gives %s, expected %s", pairname(f, t).c_str(), flags, hex(in).c_str(), show(w).c_str(), show(r).c_str());
    return w;
}
static Enc &partner(Src &S, Enc &f) {
    static const char *u[] = {"ucs4internal", "utf8", "utf16", "utf7", "iso2022_jp2", "iso2022_cn_ext", "gb18030_2022", "big5hkscs2008", "euc_jisx0213"};
    uint32_t k = S.draw(16); if (k < 9) return enc(u[k]); if (k < 11) return f; return gen_enc(S);
}
static bytes stress(Src &S, Enc &f, Enc &t) {
    switch (S.draw(6)) {
    case 0: case 1: { text x = gen_text(S, f, 14); return ref_encode(f, x, S.draw(2)); }
    case 2: { text x; size_t n = 1 + S.draw(5); for (size_t i = 0; i < n; i++) if (!f.combos.empty() && S.draw(2)) { auto &c = S.pick(f.combos); x.insert(x.end(), c.begin(), c.end()); } else if (!f.reprs.empty()) x.push_back(S.pick(f.reprs)); return ref_encode(f, x, S.draw(2)); }
    case 3: { text x = gen_text(S, t, 14); return ref_encode(f, x); }
    case 4: { bytes b; size_t n = 1 + S.draw(6); for (size_t i = 0; i < n; i++) b += S.draw(2) && !f.toks.empty() ? S.pick(f.toks) : gen_valid(S, f, 6); return b; }
    default: return gen_bytes(S, f, 24);
    }
}
// All cuts: every single cut, every constant piece size with every constant room.
static void all_cuts(Enc &f, Enc &t, int flags, const bytes &in) {
    Result w = one_call(f, t, flags, in); bool clean;
    for (size_t c = 1; c < in.size() && c < 64; c++) {
        bool firstp = true; Plan p{[&] { size_t r = firstp ? c : in.size(); firstp = false; return r; }, [&] { return ample(in.size()); }};
        Cd cd(SUT, f, t, flags); Result g = stream(SUT, cd, in, p, &clean); judge(f, t, flags, in, w, g, clean, fmt("a cut after %zu bytes", c));
    }
    for (size_t room = 0; room <= 14; room++) {
        Plan p{[&] { return in.size(); }, [&] { return room; }};
        Cd cd(SUT, f, t, flags); Result g = stream(SUT, cd, in, p, &clean); judge(f, t, flags, in, w, g, clean, fmt("%zu bytes of room per call", room));
    }
    for (size_t piece = 1; piece <= 3; piece++) for (size_t room : {(size_t)0, (size_t)1, (size_t)2, (size_t)3, (size_t)4, (size_t)7, ample(in.size())}) {
        Plan p{[&] { return piece; }, [&] { return room; }};
        Cd cd(SUT, f, t, flags); Result g = stream(SUT, cd, in, p, &clean); judge(f, t, flags, in, w, g, clean, fmt("pieces of %zu bytes and %zu bytes of room", piece, room));
    }
    label(f.stateful ? "stateful source" : f.composing ? "composing source" : "other source"); label(t.stateful ? "stateful target" : t.composing ? "composing target" : "other target");
    label(w.status ? "malformed or truncated" : "valid");
    if (in.size() > 2) nontrivial(hash_str(in, mix(f.idx, t.idx) + flags));
}
SWEEP(c05_cuts, "c05_cuts", E.size() * 2) {
    Enc &e = E[I / 2]; bool from = I & 1; int K = thorough() ? 60000 : e.stateful || e.composing || e.full ? 6000 : e.rep.n > 300 ? 3000 : 800;
    for (int k = 0; k < K; k++) {
        Src S; S.st = mix(mix(base_seed(), I), k);
        Enc &o = partner(S, e); Enc &f = from ? e : o, &t = from ? o : e; int flags = S.draw(4) == 3;
        bytes in = stress(S, f, t); all_cuts(f, t, flags, in);
        if (k == 0) sample(pairname(f, t) + " " + hex(in));
    }
}
CASE(c05_rand, "c05_rand") {
    Enc &f = gen_enc(S), &t = partner(S, f); int flags = S.flip(1, 4);
    bytes in = S.draw(3) ? stress(S, f, t) : gen_bytes(S, f, 80);
    bool big = S.flip(1, 200); if (big) in = amplify(S, in, 20000);
    Result w = one_call(f, t, flags, in); bool clean;
    uint32_t pm = S.draw(4), rm = S.draw(4); std::string trace;
    Plan p{[&] { size_t k = pm == 0 ? 1 + S.draw(3) : pm == 1 ? 1 + S.draw(8) : pm == 2 ? 1 + S.draw((uint32_t)in.size() + 1) : S.draw(3) ? 1 + S.draw(4) : 0; if (big) k *= 1 + in.size() / 64; return k; },
           [&] { size_t k = rm == 0 ? S.draw(4) : rm == 1 ? S.draw(12) : rm == 2 ? (S.draw(2) ? S.draw(3) : S.draw(64)) : ample(in.size()); if (big) k *= 1 + in.size() / 64; return k; }};
    Cd cd(SUT, f, t, flags); Result g = stream(SUT, cd, in, p, &clean);
    judge(f, t, flags, in, w, g, clean, "a random division"); evals((uint64_t)-1);
    label(w.status ? "malformed or truncated" : "valid"); label(clean ? "every call succeeded" : "calls interrupted by a full buffer or incomplete input");
    if (in.size() > 2) nontrivial(hash_str(in, mix(f.idx, t.idx) + flags));
    sample(pairname(f, t) + " " + hex(in));
}

// The whole repertoire of every encoding, as source and as target, in short texts with neighbours from other component sets, cut into
// single bytes and into little room.
enum { RP = 16 };
SWEEP(c05_rep, "c05_rep", E.size() * RP) {
    Enc &e = E[I / RP]; Rng rng(mix(base_seed(), I)), one(mix(base_seed(), e.idx)); auto list = rep_list(e, one, 2, 41); size_t lo = list.size() * (I % RP) / RP, hi = list.size() * (I % RP + 1) / RP;
    std::vector<text> nb{{'a'}, {'\n'}}; for (auto r : e.reprs) nb.push_back({r}); for (auto &c : e.combos) nb.push_back(c);
    for (auto &x : nb) x.erase(std::remove_if(x.begin(), x.end(), [&](uint32_t c) { return !e.rep.has(c); }), x.end());
    Enc *uni[] = {&E[PIV], &enc("utf8"), &enc("utf16be"), &enc("utf7")};
    for (size_t i = lo; i < hi;) {
        text x; for (int k = 0; k < 12 && i < hi; k++, i++) { x.push_back(list[i]); if (e.stateful || e.composing ? rng(2) : rng(6) == 0) { auto &y = nb[rng((uint32_t)nb.size())]; x.insert(x.end(), y.begin(), y.end()); } }
        for (int dir = 0; dir < 2; dir++) {
            Enc &o = *uni[rng(4)], &f = dir ? o : e, &t = dir ? e : o; int fl = rng(8) == 0; text y; for (auto c : x) if (f.rep.has(c) && t.rep.has(c)) y.push_back(c); bytes in = ref_encode(f, y, rng(2)); if (in.empty()) continue;
            Result w = one_call(f, t, fl, in); bool clean;
            for (int mode = 0; mode < 4; mode++) {
                size_t pc = mode == 0 ? 1 : mode == 1 ? in.size() : 1 + rng(3), rm = mode == 0 ? ample(in.size()) : mode == 1 ? rng(12) : mode == 2 ? rng(8) : 99;
                Plan p{[&] { return mode == 3 ? rng(5) : pc; }, [&] { return rm == 99 ? rng(10) : rm; }};
                Cd cd(SUT, f, t, fl); Result g = stream(SUT, cd, in, p, &clean); judge(f, t, fl, in, w, g, clean, mode == 0 ? "byte by byte" : mode == 1 ? fmt("%zu bytes of room per call", rm) : fmt("pieces of up to %zu bytes and %zu bytes of room", pc, rm));
            }
            nontrivial(hash_str(in, mix(f.idx, t.idx)));
        }
    }
    sample(fmt("%s: characters %zu..%zu of the repertoire in small pieces", e.names[0].c_str(), lo, hi)); label("characters swept", hi - lo);
}

// The beginning of a character of more than one byte.
static bytes gen_trunc(Enc &f) { for (uint32_t r : f.reprs) { bytes b = ref_encode(f, {r}, false); if (b.size() > 1) return b.substr(0, b.size() - 1); } return ""; }
// Long streams in very many small pieces on one descriptor.
SWEEP(c05_long, "c05_long", E.size() * 2) {
    Enc &e = E[I / 2]; Enc &f = I % 2 ? e : enc("utf8"), &t = I % 2 ? enc("utf8") : e; Rng rng(mix(base_seed(), I));
    for (int v = 0; v < (thorough() ? 24 : 4); v++) {
        text x = long_text(e, e.rt, v == 0 ? 70000 : 10000 + rng(20000), v == 0 ? 3 : (int)rng(4), mix(base_seed(), I * 100 + v)); bytes in = ref_encode(f, x); if (v == 3) in += gen_trunc(f);
        int fl = v & 1; Result w = one_call(f, t, fl, in); bool clean; size_t big = ample(in.size()); uint32_t mode = v == 0 ? rng(2) : rng(4);
        Plan p{[&] { return mode == 1 || mode == 2 ? 1 + rng(3) : mode == 3 ? in.size() : (size_t)1; }, [&] { return mode == 0 ? std::min<size_t>(big, 64) : mode == 1 ? rng(9) : mode == 2 ? 64 : 1 + rng(12); }};
        Cd cd(SUT, f, t, fl); Result g = stream(SUT, cd, in, p, &clean);
        if (g != w) { size_t k = 0; while (k < g.out.size() && k < w.out.size() && g.out[k] == w.out[k]) k++; label("first difference"); if (g.out != w.out) fail("%s, flags %d, %zu characters (%s...) in small pieces: the output of %zu bytes differs from the one-call output of %zu bytes at byte %zu", pairname(f, t).c_str(), fl, x.size(), show(x, 4).c_str(), g.out.size(), w.out.size(), k); }
        judge(f, t, fl, in, w, g, clean, "small pieces"); nontrivial(hash_str(in, mix(I, v)));
    }
    label("long streams"); sample(pairname(f, t) + " long streams in small pieces");
}
