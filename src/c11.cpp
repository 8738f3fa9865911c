// C11: a reset flushes what is pending and starts a new conversion.
#include "stream.hpp"
using namespace vp;
// The byte order that a mark-sensitive decoder has learned from the units it consumed: 0 big-endian (or not applicable), 1 little.
static int learned(Enc &f, const bytes &units) {
    if (!f.bom) return 0; size_t u = f.unit; int le = 0;
    for (size_t i = 0; i + u <= units.size(); i += u) { uint32_t v = 0; for (size_t k = 0; k < u; k++) v |= (uint32_t)(unsigned char)units[i + (le ? k : u - 1 - k)] << (8 * k); if (v == (u == 2 ? 0xFFFEu : 0xFFFE0000u)) le = !le; }
    return le;
}
static bytes mark(Enc &f, int le) { if (!le) return ""; return f.unit == 2 ? bytes("\xFF\xFE", 2) : bytes("\xFF\xFE\0\0", 4); }
static bytes be(Enc &f) { return f.unit == 2 ? bytes("\xFE\xFF", 2) : bytes("\0\0\xFE\xFF", 4); }
static void reset_null(Src &S, void *cd) {
    char *p = nullptr; size_t n = 7; size_t r; char *ip = nullptr; size_t il = 3;
    switch (S.draw(4)) {
    case 0: r = SUT.iconv(cd, nullptr, nullptr, nullptr, nullptr); break;
    case 1: r = SUT.iconv(cd, nullptr, nullptr, &p, &n); break;
    case 2: r = SUT.iconv(cd, &ip, &il, nullptr, nullptr); break;
    default: r = SUT.iconv(cd, &ip, &il, &p, &n); break;
    }
    if (r != 0) fail("a reset without output buffer returns %zd", (ssize_t)r);
    if (n != 7 || p) fail("a reset without output buffer touches the output variables");
}
// Some calls with arbitrary input, room and outcome. Returns the units that were consumed as input (not skipped).
static bytes history(Src &S, Enc &f, Enc &t, void *cd, std::string *log) {
    bytes used; int n = S.draw(5);
    for (int k = 0; k < n; k++) {
        bytes in = S.draw(2) ? gen_bytes(S, f, 14) : ref_encode(f, gen_text(S, f, 8), S.draw(2)); size_t pos = 0;
        if (f.bom && S.draw(2)) in = mark(f, 1) + in;
        for (int j = 0; j < 4; j++) {
            Call c = call(SUT, cd, in.data() + pos, in.size() - pos, S.draw(3) ? ample(in.size()) : S.draw(12)); used += in.substr(pos, c.used); pos += c.used;
            // Marks right before a character that was refused (full buffer, lacking in the target) have been seen, though not consumed.
            if (f.bom && c.ret == (size_t)-1) for (size_t q = pos; q + f.unit <= in.size(); q += f.unit) { bytes u = in.substr(q, f.unit); if (u != mark(f, 1) && u != be(f)) break; used += u; }
            *log += fmt(" [%s:%zd/%d]", hex(in).c_str(), (ssize_t)c.ret, c.err);
            if (c.ret != (size_t)-1 || c.err == EINVAL) break;
            if (c.err == EILSEQ) { pos = std::min(in.size(), pos + f.unit); if (S.draw(2)) break; }
        }
        if (S.draw(6) == 0) { call(SUT, cd, nullptr, 0, S.draw(8), true); *log += " [reset, little room]"; }
    }
    return used;
}
// After any history and a reset, the descriptor is like a fresh one.
CASE(c11_fresh, "c11_fresh") {
    Enc &f = gen_enc(S), &t = gen_enc(S); int fl = S.draw(2); Cd a(SUT, f, t, fl), b(SUT, f, t, fl); std::string log;
    bytes used = history(S, f, t, a, &log); bool withroom = S.draw(2);
    if (withroom) { // a reset with room; one that stops at a held-back character that the target lacks is followed by one without
        Call c = call(SUT, a, nullptr, 0, 64, true); if (c.ret == (size_t)-1) { if (c.err != EILSEQ) fail("%s: reset with 64 bytes of room fails with %d", pairname(f, t).c_str(), c.err); reset_null(S, a); }
        else { Call d = call(SUT, a, nullptr, 0, S.draw(4), true); if (d.ret != 0 || d.out.size()) fail("%s, after%s: a second reset returns %zd and writes %s", pairname(f, t).c_str(), log.c_str(), (ssize_t)d.ret, hex(d.out).c_str()); }
    } else reset_null(S, a);
    bytes m = mark(f, learned(f, used)); if (m.size()) { call(SUT, b, m.data(), m.size(), 64); SUT.iconv(b, nullptr, nullptr, nullptr, nullptr); label("learned little-endian"); }
    bytes in = S.draw(3) ? ref_encode(f, gen_text(S, f, 12)) : gen_bytes(S, f, 16); if (m.size() && S.draw(2)) { Enc &le = enc(f.unit == 4 ? (f.id == "utf32" ? "utf32le" : "ucs4le") : f.id == "utf16" ? "utf16le" : "ucs2le"); in = ref_encode(le, gen_text(S, le, 8)); }
    Result x = run(SUT, a, in), y = run(SUT, b, in), r; { Cd c(REF, f, t, fl); if (m.size()) { call(REF, c, m.data(), m.size(), 64); REF.iconv(c, nullptr, nullptr, nullptr, nullptr); } r = run(REF, c, in); }
    if (x != y) fail("%s%s, after%s and a reset%s: input %s gives %s, on a fresh descriptor %s", pairname(f, t).c_str(), fl ? ", discarding" : "", log.c_str(), withroom ? "" : " without buffer", hex(in).c_str(), show(x).c_str(), show(y).c_str());
    if (y != r) fail("%s%s, fresh descriptor%s: input %s gives %s, expected %s", pairname(f, t).c_str(), fl ? ", discarding" : "", m.size() ? " that saw a little-endian mark" : "", hex(in).c_str(), show(y).c_str(), show(r).c_str());
    if (log.size() && in.size() > 1) nontrivial(hash_str(in + log, mix(f.idx, t.idx))); label(withroom ? "reset with room" : "reset without buffer"); sample(pairname(f, t) + " after" + log + ", then " + hex(in));
}
// The reset with every room: what it writes is the same in total, and nothing is lost by retrying.
static void rooms(Enc &f, Enc &t, int fl, const bytes &in, const std::vector<size_t> &caps, Src *S) {
    Cd a(SUT, f, t, fl), b(REF, f, t, fl); Result p = run(SUT, a, in, false), q = run(REF, b, in, false);
    if (p != q) fail("%s, input %s: %s, expected %s", pairname(f, t).c_str(), hex(in).c_str(), show(p).c_str(), show(q).c_str());
    Call want = call(REF, b, nullptr, 0, 64, true); bytes tot; size_t k = 0; bool done = false;
    for (size_t cap : caps) {
        k++; Call c = call(SUT, a, nullptr, 0, cap, true); tot += c.out;
        if (c.ret != (size_t)-1) { if (want.ret == (size_t)-1 || c.ret > want.ret) fail("%s, after %s: reset %zu with %zu bytes of room returns %zd, expected %zd", pairname(f, t).c_str(), hex(in).c_str(), k, cap, (ssize_t)c.ret, (ssize_t)want.ret); done = true; break; }
        if (c.err == EILSEQ) { if (want.ret != (size_t)-1) fail("%s, after %s: reset with %zu bytes of room fails as illegal sequence", pairname(f, t).c_str(), hex(in).c_str(), cap); if (tot != want.out) fail("%s, after %s: failing reset writes %s", pairname(f, t).c_str(), hex(in).c_str(), hex(tot).c_str()); return; }
        if (tot.size() + cap - c.out.size() >= want.out.size() && want.ret != (size_t)-1 && k == 1) fail("%s, after %s: reset reports a full buffer with %zu bytes of room, but needs only %zu", pairname(f, t).c_str(), hex(in).c_str(), cap, want.out.size());
    }
    if (!done) fail("%s, after %s: reset still reports a full buffer after %zu tries with up to 64 bytes of room", pairname(f, t).c_str(), hex(in).c_str(), k);
    if (tot != want.out) fail("%s, after %s: the reset in %zu tries writes %s in total, expected %s", pairname(f, t).c_str(), hex(in).c_str(), k, hex(tot).c_str(), hex(want.out).c_str());
    // The shift state is over: the next text starts afresh.
    bytes probe; if (S) probe = ref_encode(f, gen_text(*S, f, 6)); else probe = in.substr(0, 24);
    Result x = run(SUT, a, probe), y = run(REF, b, probe); if (x != y) fail("%s, after %s and a reset in %zu tries: %s gives %s, expected %s", pairname(f, t).c_str(), hex(in).c_str(), k, hex(probe).c_str(), show(x).c_str(), show(y).c_str());
}
CASE(c11_room, "c11_room") {
    Enc &f = gen_enc(S), &t = gen_enc(S); int fl = S.draw(2); bytes in;
    if (S.draw(2)) { text x = gen_text(S, f, 10), k; for (auto c : x) if (t.rep.has(c) && f.rep.has(c)) k.push_back(c); in = ref_encode(f, k, false); } else in = gen_valid(S, f, 12);
    { Result q = run(REF, f, t, fl, in, false); in.resize(q.consumed); if (q.status == EINVAL && S.draw(2)) {} }
    std::vector<size_t> caps; int n = S.draw(6); for (int i = 0; i < n; i++) caps.push_back(S.draw(i < 3 ? 6 : 12)); caps.push_back(64);
    rooms(f, t, fl, in, caps, &S); if (in.size() > 1 && n) nontrivial(hash_str(in, mix(mix(f.idx, t.idx), n))); sample(pairname(f, t) + " " + hex(in));
}
// Every last character of every holding-back decoder to every stateful or composing target and to a sample of others; every last
// character of every stateful encoder: the reset with every room.
static std::vector<std::pair<int, int>> &prs() {
    static std::vector<std::pair<int, int>> v; if (v.empty()) for (auto &f : E) for (auto &t : E) { bool hb = f.composing, st = t.stateful || t.composing || t.id == "utf16" || t.id == "utf32"; if ((hb && st) || (hb && t.idx % 8 == f.idx % 8) || (f.idx == PIV && st) || (hb && t.idx == PIV) || (hb && t.unit > 1)) v.push_back({f.idx, t.idx}); }
    return v;
}
SWEEP(c11_last, "c11_last", prs().size() * 4) {
    Enc &f = E[prs()[I / 4].first], &t = E[prs()[I / 4].second]; Rng rng(mix(base_seed(), I)); Src S; S.st = mix(base_seed(), I); std::vector<uint32_t> ctx; for (auto c : t.reprs) if (f.rep.has(c)) ctx.push_back(c); if (ctx.empty()) ctx.push_back('A');
    uint64_t step = thorough() ? 4 : f.rep.n > 100000 ? 4 * 29 : f.rep.n > 3000 ? 4 * 5 : 4;
    for (uint64_t i = I % 4 + 4 * (step > 4 ? rng((uint32_t)step / 4) : 0); i < f.rep.n; i += step) {
        uint32_t c = f.rep.at(i); if (!t.rep.has(c) && rng(8)) continue;
        text x; if (rng(2)) x.push_back(ctx[rng((uint32_t)ctx.size())]); x.push_back(c); bytes in = ref_encode(f, x, false); Result q = run(REF, f, t, 0, in, false); in.resize(q.consumed); if (q.status) continue;
        for (size_t cap = 0; cap < 9; cap++) { Result z = run(REF, f, t, 0, in, true); rooms(f, t, 0, in, {cap, cap + 1, 64}, nullptr); evals(1); if (z.out.size() - q.out.size() <= cap) break; }
        nontrivial(mix(mix(c, f.idx), mix(t.idx, x.size())));
    }
    label(f.composing ? "holding-back source" : "stateful target");
}

// One descriptor for very many short texts, each ended by a reset.
SWEEP(c11_many, "c11_many", E.size() * 2) {
    Enc &e = E[I / 2]; Enc &f = I % 2 ? e : enc("utf8"), &t = I % 2 ? enc("utf8") : e; Rng rng(mix(base_seed(), I)); Src S; S.st = mix(base_seed(), I);
    std::vector<std::pair<bytes, Result>> m; for (int k = 0; k < 12; k++) { text x = gen_text(S, e, k < 6 ? 2 : 6); if (k < 2) x = {'a'}; bytes in = ref_encode(f, x); if (f.bom) { text y; for (auto c : x) if (c != 0xFEFF) y.push_back(c); in = ref_encode(enc(f.id == "utf16" ? "utf16be" : f.id == "utf32" ? "utf32be" : f.id == "ucs2" ? "ucs2be" : "ucs4be"), y); } m.push_back({in, run(REF, f, t, 0, in)}); }
    Cd cd(SUT, f, t, 0); int N = thorough() ? 1000000 : 70000;
    for (int k = 0; k < N; k++) { auto &p = m[rng(12)]; Result g = run(SUT, cd, p.first); if (g != p.second) fail("%s: text %d on one descriptor, %s, gives %s, expected %s", pairname(f, t).c_str(), k + 1, hex(p.first).c_str(), show(g).c_str(), show(p.second).c_str()); if (p.second.status || p.second.flush) SUT.iconv(cd, nullptr, nullptr, nullptr, nullptr); evals(1); }
    for (auto &p : m) if (p.first.size() > 1) nontrivial(hash_str(p.first, I)); label("texts on one descriptor", N);
}
