// C09: discard mode. Oracle: the same input converted without discarding, skipping by hand (one unit per illegal sequence, one
// character per character that the target lacks).
#include "stream.hpp"
#include <cppp/reiconv.hpp>
using namespace vp;
static bool tag(uint32_t c) { return c >> 7 == 0xE0000 >> 7; }
struct Want { text kept; size_t count = 0; int status = 0; size_t consumed = 0; Result enc; size_t skipped = 0; text all; };
// flush: whether the held-back character at the end counts too.
static Want model(Enc &f, Enc &t, const bytes &in) {
    Want w; Cd cd(SUT, f, E[PIV], 0); size_t pos = 0; bytes dec;
    for (;;) {
        Call c = call(SUT, cd, in.data() + pos, in.size() - pos, ample(in.size() - pos)); dec += c.out; pos += c.used;
        if (c.ret != (size_t)-1) { if (c.ret) fail("%s to UCS-4-INTERNAL counts substitutions", f.names[0].c_str()); break; }
        if (c.err == EINVAL) { w.status = EINVAL; break; }
        if (c.err == E2BIG) fail("%s: full buffer with ample room", f.names[0].c_str());
        // An illegal sequence: skip one unit by hand.
        if (in.size() - pos < (size_t)f.unit) fail("%s, input %s: illegal sequence reported at %zu, less than a unit before the end", f.names[0].c_str(), hex(in).c_str(), pos);
        pos += f.unit; w.skipped++;
    }
    w.consumed = pos;
    if (w.status == 0) { Call c = call(SUT, cd, nullptr, 0, 64, true); dec += c.out; }
    w.all = unpack(dec);
    for (auto c : w.all) if (t.has(w.kept, c)) w.kept.push_back(c); else if (!tag(c)) w.count++;
    w.enc = run(SUT, E[PIV], t, 0, pack(w.kept), w.status == 0);
    return w;
}
static void judge(Enc &f, Enc &t, const bytes &in, const Want &w, const Result &g, const char *how) {
    Result x; x.out = w.enc.out; x.count = w.status ? 0 : w.count; x.status = w.status; x.consumed = w.consumed; x.flush = w.status ? -1 : 0;
    if (w.enc.status || w.enc.count || w.enc.flush > 0) fail("%s: %s, which the target has, is rejected: %s", pairname(f, t).c_str(), show(w.kept).c_str(), show(w.enc).c_str());
    if (g != x) fail("%s, discarding, %s, input %s: got %s; skipping by hand gives %s (text %s)", pairname(f, t).c_str(), how, hex(in).c_str(), show(g).c_str(), show(x).c_str(), show(w.kept).c_str());
    Result r = run(REF, f, t, 1, in);
    if (r != x) fail("%s, discarding, input %s: skipping by hand gives %s, expected %s", pairname(f, t).c_str(), hex(in).c_str(), show(x).c_str(), show(r).c_str());
}
static void note(const Want &w, Enc &f, Enc &t, const bytes &in) {
    if (w.skipped) label("illegal units dropped"); if (w.count) label("lacking characters dropped"); if (!w.skipped && !w.count) label("nothing to drop"); if (w.status) label("truncated");
    if (w.skipped || w.count) nontrivial(hash_str(in, mix(f.idx, t.idx)));
}
// Every two-byte unit in every encoding.
SWEEP(c09_units, "c09_units", E.size() * 16) {
    Enc &e = E[I / 16]; int part = I % 16; Rng rng(mix(base_seed(), I));
    std::vector<bytes> pres, sufs;
    for (int k = 0; k < 8; k++) { Src S; S.st = mix(mix(base_seed(), I), k + 100); pres.push_back(k ? gen_valid(S, e, 8) : ""); sufs.push_back(k < 2 ? bytes() : gen_valid(S, e, 8)); }
    for (int x = part * 4096; x < (part + 1) * 4096; x++) {
        int R = thorough() ? 8 : e.stateful ? 2 : 1;
        for (int r = 0; r < R; r++) {
            bytes in = pres[rng(8)]; if (e.unit == 4) { in += (char)(rng(4) ? 0 : rng(256)); in += (char)(rng(2) ? rng(0x14) : rng(256)); } in += (char)(x >> 8); in += (char)x; in += sufs[rng(8)];
            Want w = model(e, E[PIV], in); judge(e, E[PIV], in, w, run(SUT, e, E[PIV], 1, in), "one call");
            evals(1); note(w, e, E[PIV], in);
        }
    }
    sample(fmt("%s: bytes %04x..%04x between %s and %s", e.names[0].c_str(), part * 4096, part * 4096 + 4095, hex(pres[1]).c_str(), hex(sufs[2]).c_str()));
}
// Every code point that a target lacks, between characters that it has.
SWEEP(c09_lack, "c09_lack", E.size() * 17) {
    Enc &t = E[I % E.size()]; uint32_t plane = (uint32_t)(I / E.size()); Rng rng(mix(base_seed(), I));
    uint32_t step = thorough() || plane == 0 || plane == 14 ? 1 : 11; text ctx; for (uint32_t r : t.reprs) ctx.push_back(r); if (ctx.empty()) ctx.push_back('A');
    for (uint32_t c = (plane << 16) + rng(step); c < (plane + 1) << 16; c += step) {
        if ((c >= 0xD800 && c < 0xE000) || t.rep.has(c)) continue;
        uint32_t a = ctx[rng((uint32_t)ctx.size())], b = ctx[rng((uint32_t)ctx.size())];
        Result g = run(SUT, E[PIV], t, 1, pack({a, c, b})); static bytes want; static uint32_t ka = ~0u, kb; static int kt = -1;
        if (kt != t.idx || ka != a || kb != b) { want = ref_encode(t, {a, b}); ka = a; kb = b; kt = t.idx; }
        if (g.status || g.flush || g.count != (tag(c) ? 0 : 1) || g.out != want) fail("discarding, U+%04X U+%04X U+%04X to %s, which lacks the second: got %s, expected %s and count %d", a, c, b, t.names[0].c_str(), show(g).c_str(), hex(want).c_str(), !tag(c));
        evals(1); if (rng(8) == 0) nontrivial(mix(mix(c, t.idx), mix(a, b)));
    }
    label("targets x planes");
}
CASE(c09_rand, "c09_rand") {
    Enc &f = gen_enc(S), &t = S.draw(3) == 0 ? E[PIV] : gen_enc(S); bytes in;
    switch (S.draw(4)) {
    case 0: in = gen_bytes(S, f, 40); break;
    case 1: in = mutate(S, f, gen_bytes(S, f, 40)); break;
    case 2: { text x; for (auto c : gen_any(S, t, 20)) if (f.rep.has(c)) x.push_back(c); in = ref_encode(f, x); if (S.draw(3) == 0) in = mutate(S, f, in); break; }
    default: in = ref_encode(f, gen_text(S, f, 20)); break; // nothing illegal, perhaps lacking
    }
    if (S.flip(1, 200)) in = amplify(S, in, 20000);
    sample(pairname(f, t) + " " + hex(in));
    Want w = model(f, t, in); judge(f, t, in, w, run(SUT, f, t, 1, in), "one call"); note(w, f, t, in);
    // Opened in the iconv way.
    if (S.draw(4) == 0) { static const char *suf[] = {"//IGNORE", "//ignore", "//Ignore"}; std::string tn = t.names[S.draw((uint32_t)t.names.size())] + suf[S.draw(3)]; void *cd = SUT.open_iconv(tn.c_str(), f.names[0].c_str()); if (cd == (void *)-1) fail("reiconv_open(%s, %s) fails", tn.c_str(), f.names[0].c_str()); std::unique_ptr<void, int (*)(void *)> cl(cd, SUT.close); judge(f, t, in, w, run(SUT, cd, in), "//IGNORE"); }
    // Valid input that the target has converts as without discarding.
    if (!w.skipped && !w.count) { Result a = run(SUT, f, t, 0, in), b = run(SUT, f, t, 1, in); if (a != b) fail("%s, input %s, nothing to discard: %s without and %s with discarding", pairname(f, t).c_str(), hex(in).c_str(), show(a).c_str(), show(b).c_str()); }
}
// In small pieces and with little room: never stuck, same output.
CASE(c09_room, "c09_room") {
    Enc &f = gen_enc(S), &t = gen_enc(S); bytes in = S.draw(3) ? gen_bytes(S, f, 24) : mutate(S, f, ref_encode(f, gen_text(S, f, 12)));
    bool big = S.flip(1, 200); if (big) in = amplify(S, in, 9000);
    Want w = model(f, t, in); uint32_t pm = S.draw(3), rm = S.draw(3); bool clean;
    Plan p{[&] { size_t k = pm == 0 ? 1 : pm == 1 ? S.draw(5) : in.size(); return big ? k * 50 : k; }, [&] { size_t k = rm == 0 ? S.draw(3) : rm == 1 ? S.draw(12) : ample(in.size()); return big && rm < 2 ? k * 50 : k; }};
    Cd cd(SUT, f, t, 1); Result g = stream(SUT, cd, in, p, &clean);
    if (g.status == EILSEQ || g.flush > 0) fail("%s, discarding, input %s: failed with an illegal sequence: %s", pairname(f, t).c_str(), hex(in).c_str(), show(g).c_str());
    if (g.out != w.enc.out || g.status != w.status || g.consumed != w.consumed) fail("%s, discarding, input %s in pieces: got %s; skipping by hand gives %s, %zu consumed, status %d", pairname(f, t).c_str(), hex(in).c_str(), show(g).c_str(), hex(w.enc.out).c_str(), w.consumed, w.status);
    if (clean && !w.status && g.count != w.count) fail("%s, discarding, input %s in pieces: count %zu, expected %zu", pairname(f, t).c_str(), hex(in).c_str(), g.count, w.count);
    note(w, f, t, in); sample(pairname(f, t) + " " + hex(in));
}
// One-shot conversions with discarding: size, fixed buffer, allocated buffer, C++.
CASE(c09_oneshot, "c09_oneshot") {
    Enc &f = gen_enc(S), &t = gen_enc(S); bytes in = S.draw(3) ? gen_bytes(S, f, 24) : mutate(S, f, ref_encode(f, gen_text(S, f, 12)));
    if (S.flip(1, 100)) in = amplify(S, in, 9000);
    Want w = model(f, t, in); sample(pairname(f, t) + " " + hex(in)); note(w, f, t, in);
    Cd cd(SUT, f, t, 1); size_t sz = SUT.result_size(cd, in.data(), in.size());
    if (w.status) { if (sz != (size_t)-1) fail("%s, discarding: predicted size %zu for truncated input %s", pairname(f, t).c_str(), sz, hex(in).c_str()); }
    else if (sz != w.enc.out.size()) fail("%s, discarding, input %s: predicted size %zd, expected %zu", pairname(f, t).c_str(), hex(in).c_str(), (ssize_t)sz, w.enc.out.size());
    char *p = nullptr; size_t n = 0; int r = SUT.convert(cd, in.data(), in.size(), &p, &n); bytes got = r == 0 ? bytes(p, n) : bytes(); free(p);
    if ((r == 0) != (w.status == 0) || got != (w.status ? bytes() : w.enc.out)) fail("%s, discarding, input %s: allocating conversion returns %d, %s, expected %s", pairname(f, t).c_str(), hex(in).c_str(), r, hex(got).c_str(), w.status ? "failure" : hex(w.enc.out).c_str());
    bytes cpp; bool threw = false; try { cpp = reiconv::convert(reiconv::Encoding(f.names[0]), reiconv::Encoding(t.names[0]), in, reiconv::ConvertFlag::DISCARD_ILSEQ); } catch (std::exception &) { threw = true; }
    if (threw != (w.status != 0) || cpp != got) fail("%s, discarding, input %s: C++ conversion gives %s, expected %s", pairname(f, t).c_str(), hex(in).c_str(), threw ? "an exception" : hex(cpp).c_str(), w.status ? "failure" : hex(got).c_str());
}

// Every character of every repertoire with a damaged or missing byte, between others.
SWEEP(c09_damage, "c09_damage", E.size() * 16) {
    Enc &e = E[I / 16]; Rng rng(mix(base_seed(), I)), one(mix(base_seed(), e.idx)); auto list = rep_list(e, one, 3, 61); std::vector<uint32_t> nb{'a', '\n'}; for (auto r : e.reprs) nb.push_back(r); if (!e.rep.has('a')) nb = {list[0]};
    for (size_t i = I % 16; i < list.size(); i += 16) {
        text pre; if (rng(3)) pre.push_back(nb[rng((uint32_t)nb.size())]); bytes b0 = ref_encode(e, pre, false); text x = pre; x.push_back(list[i]); bytes b1 = ref_encode(e, x, false); size_t from = b0.size() && b1.compare(0, b0.size(), b0) == 0 ? b0.size() : 0; if (b1.size() <= from) continue;
        Enc &t = rng(3) ? E[PIV] : E[rng((uint32_t)E.size())]; bytes after = ref_encode(e, {nb[rng((uint32_t)nb.size())], 'z'});
        for (int k = 0; k < 4; k++) {
            bytes d = b1; size_t p = from + rng((uint32_t)(b1.size() - from)), u = (size_t)e.unit;
            switch (k) { case 0: d[p] = (char)(0x20 + rng(0x60)); break; case 1: d[p] = (char)rng(256); break; case 2: { size_t l = from + u <= d.size() ? d.size() - u : from; d.resize(l); break; } default: d.insert(p - (p - from) % u, bytes(u, (char)(0x80 + rng(128)))); }
            d += after; Want w = model(e, t, d); judge(e, t, d, w, run(SUT, e, t, 1, d), "one call"); evals(1); note(w, e, t, d);
        }
    }
    sample(fmt("%s: damaged characters, part %zu", e.names[0].c_str(), I % 16));
}

// The model for long inputs: gives the library little room beyond need, so that each step does not touch the whole buffer.
static Want model_fast(Enc &f, Enc &t, const bytes &in) {
    Want w; Cd cd(SUT, f, E[PIV], 0); size_t pos = 0; bytes dec;
    for (;;) {
        size_t n = std::min<size_t>(in.size() - pos, 256); Call c = call(SUT, cd, in.data() + pos, n, ample(n)); dec += c.out; pos += c.used;
        if (c.ret != (size_t)-1) { if (pos == in.size()) break; continue; }
        if (c.err == EINVAL) { if (pos + n - c.used == in.size()) { w.status = EINVAL; break; } if (!c.used) fail("%s: no progress", f.names[0].c_str()); continue; }
        if (c.err == E2BIG) fail("%s: full buffer with ample room", f.names[0].c_str());
        pos += f.unit; w.skipped++; if (pos > in.size()) fail("%s: illegal sequence less than a unit before the end", f.names[0].c_str());
    }
    w.consumed = pos; if (w.status == 0) { Call c = call(SUT, cd, nullptr, 0, 64, true); dec += c.out; }
    w.all = unpack(dec); for (auto c : w.all) if (t.has(w.kept, c)) w.kept.push_back(c); else if (!tag(c)) w.count++;
    w.enc = run(SUT, E[PIV], t, 0, pack(w.kept), w.status == 0); return w;
}
// Very many illegal units and lacking characters in one input.
SWEEP(c09_long, "c09_long", E.size()) {
    Enc &f = E[I]; Rng rng(mix(base_seed(), I)); Src S; S.st = mix(base_seed(), I); Enc &t = rng(2) ? E[PIV] : enc("iso2022_jp");
    for (size_t n : {255u, 256u, 4096u, 32768u, 65536u, 70000u}) {
        bytes unit; switch (rng(4)) { case 0: unit = f.unit == 1 ? "\xff"_b : f.unit == 2 ? "\xdc\x00"_b : "\xff\xff\xff\xff"_b; break; case 1: unit = f.unit == 1 ? "\x80\xff"_b : f.unit == 2 ? "\xd8\x00\0a"_b : "\x80\0\0\0"_b; break; case 2: unit = gen_bytes(S, f, 6); break; default: unit = ref_encode(f, {'a', 0x1F600, 0x4E00, 0xE9}); } if (unit.empty()) unit = bytes((size_t)f.unit, '\xff');
        bytes in; while (in.size() < n * unit.size()) in += unit; in += ref_encode(f, {'z'}); Want w = model_fast(f, t, in); Result g = run(SUT, f, t, 1, in);
        if (g.out != w.enc.out || g.status != w.status || g.consumed != w.consumed || (!w.status && g.count != w.count)) fail("%s, discarding, %zu times %s: count %zu, consumed %zu, status %d, %zu bytes of output; skipping by hand gives %zu, %zu, %d, %zu bytes", pairname(f, t).c_str(), n, hex(unit).c_str(), g.count, g.consumed, g.status, g.out.size(), w.count, w.consumed, w.status, w.enc.out.size());
        evals(1); note(w, f, t, in);
    }
    sample(f.names[0] + " very many illegal units");
}
