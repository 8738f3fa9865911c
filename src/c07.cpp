// C07: error classification, error position, and continuing after an error.
#include "common.hpp"
using namespace vp;

static const char *en(int e) { return e == 0 ? "success" : e == EILSEQ ? "illegal sequence" : e == EINVAL ? "incomplete input" : e == E2BIG ? "full buffer" : "?"; }

// Every two-byte string (unit), behind valid text and before more text.
SWEEP(c07_two, "c07_two", E.size() * 16) {
    Enc &e = E[I / 16]; int part = I % 16; Rng rng(mix(base_seed(), I));
    std::vector<bytes> pres, sufs;
    for (int k = 0; k < 8; k++) { Src S; S.st = mix(mix(base_seed(), I), k); pres.push_back(gen_valid(S, e, 8)); sufs.push_back(k < 2 ? bytes() : gen_valid(S, e, 6)); }
    pres[0] = "";
    for (int x = part * 4096; x < (part + 1) * 4096; x++) {
        int R = thorough() ? 24 : e.stateful ? 6 : 2;
        for (int r = 0; r < R; r++) {
            bytes in = pres[rng(8)]; if (e.unit == 4) { in += (char)(rng(4) ? 0 : rng(256)); in += (char)(rng(2) ? rng(0x14) : rng(256)); } in += (char)(x >> 8); in += (char)x; in += sufs[rng(8)];
            Result a = run(SUT, e, E[PIV], 0, in), b = run(REF, e, E[PIV], 0, in);
            if (a != b) fail("%s input %s: got %s, expected %s", e.names[0].c_str(), hex(in).c_str(), show(a).c_str(), show(b).c_str());
            evals(1); if (b.status) nontrivial(hash_str(in, e.idx));
            if (b.status == EILSEQ) label("illegal"); else if (b.status == EINVAL) label("incomplete"); else label("valid");
        }
    }
    sample(fmt("%s: bytes %04x..%04x behind %s", e.names[0].c_str(), part * 4096, part * 4096 + 4095, hex(pres[1]).c_str()));
}
// Truncations of valid input are never illegal, lose nothing, and can be completed.
CASE(c07_trunc, "c07_trunc") {
    Enc &f = gen_enc(S), &t = S.draw(2) ? E[PIV] : gen_enc(S);
    text x = gen_text(S, f, 16), y; for (auto c : x) if (t.rep.has(c)) y.push_back(c);
    bytes in = &t == &E[PIV] ? gen_valid(S, f, 24) : ref_encode(f, y, S.draw(2));
    Result w = run(SUT, f, t, 0, in);
    if (w.status) { Result r = run(REF, f, t, 0, in); if (r.status) { label("not convertible"); return; } fail("%s: convertible input %s is rejected: %s", pairname(f, t).c_str(), hex(in).c_str(), show(w).c_str()); }
    for (size_t n = 0; n <= in.size() && n < 80; n++) {
        Cd cd(SUT, f, t, 0); Call c = call(SUT, cd, in.data(), n, ample(n));
        if (c.ret == (size_t)-1 && c.err != EINVAL) fail("%s: %s, the beginning of the convertible %s, is reported as %s", pairname(f, t).c_str(), hex(in.substr(0, n)).c_str(), hex(in).c_str(), en(c.err));
        Cd rd(REF, f, t, 0); Call k = call(REF, rd, in.data(), n, ample(n));
        if (c.used != k.used || c.err != k.err || c.out != k.out) fail("%s: %s: %s after %zu bytes, output %s; expected %s after %zu bytes, output %s", pairname(f, t).c_str(), hex(in.substr(0, n)).c_str(), en(c.err), c.used, hex(c.out).c_str(), en(k.err), k.used, hex(k.out).c_str());
        Result rest = run(SUT, cd, in.substr(c.used));
        if (rest.status || rest.flush != w.flush || c.out + rest.out != w.out) fail("%s: continuing after the first %zu bytes of %s gives %s + %s, expected %s", pairname(f, t).c_str(), n, hex(in).c_str(), hex(c.out).c_str(), show(rest).c_str(), show(w).c_str());
        if (c.err == EINVAL) label("incomplete"); else label("at a boundary");
    }
    if (in.size() > 2) nontrivial(hash_str(in, mix(f.idx, t.idx)));
    sample(pairname(f, t) + " all prefixes of " + hex(in));
}
// A full buffer stops at a character boundary, everything before is delivered, and continuing completes the text.
CASE(c07_full, "c07_full") {
    Enc &f = gen_enc(S), &t = gen_enc(S); int flags = S.draw(2);
    text x = gen_text(S, S.draw(2) ? f : t, 14); if (!flags) { text y; for (auto c : x) if (t.rep.has(c) || t.has_fffd) y.push_back(c); x = y; }
    bytes in = ref_encode(f, x);
    Result w = run(SUT, f, t, flags, in);
    size_t maxcap = std::min<size_t>(w.out.size() + 1, 60), last = 0;
    for (size_t cap = 0; cap <= maxcap; cap++) {
        Cd cd(SUT, f, t, flags), rd(REF, f, t, flags); Call c = call(SUT, cd, in.data(), in.size(), cap), k = call(REF, rd, in.data(), in.size(), cap);
        if (c.err == E2BIG && c.used == in.size()) fail("%s: full buffer reported with all input consumed", pairname(f, t).c_str());
        if (c.used < last) fail("%s, input %s: with more room (%zu bytes) less is converted", pairname(f, t).c_str(), hex(in).c_str(), cap);
        last = c.used;
        if (c.ret != k.ret || c.err != k.err || c.used != k.used || c.out != k.out) fail("%s, flags %d, input %s, %zu bytes of room: %s after %zu bytes with output %s; expected %s after %zu with %s", pairname(f, t).c_str(), flags, hex(in).c_str(), cap, en(c.err), c.used, hex(c.out).c_str(), en(k.err), k.used, hex(k.out).c_str());
        if (c.err == E2BIG) {
            Result rest = run(SUT, cd, in.substr(c.used));
            if (c.out + rest.out != w.out || rest.status != w.status || rest.flush != w.flush) fail("%s, input %s: continuing after a full buffer of %zu bytes gives %s + %s, expected %s", pairname(f, t).c_str(), hex(in).c_str(), cap, hex(c.out).c_str(), show(rest).c_str(), show(w).c_str());
            label("full buffer");
        } else label("enough room");
    }
    if (x.size() > 2) nontrivial(hash_str(in, mix(f.idx, t.idx)));
    sample(pairname(f, t) + " all capacities for " + hex(in));
}
// After an illegal sequence the caller may skip and go on; position and outcome of every step follow the definition.
CASE(c07_skip, "c07_skip") {
    Enc &f = gen_enc(S), &t = S.draw(2) ? E[PIV] : gen_enc(S);
    bytes in = gen_bytes(S, f, 30); if (S.draw(3) == 0) in += gen_bytes(S, f, 30);
    if (S.flip(1, 200)) in = amplify(S, in, 5000);
    Cd cd(SUT, f, t, 0), rd(REF, f, t, 0); size_t pos = 0; int errs = 0;
    for (int k = 0; k < 200 && pos <= in.size(); k++) {
        size_t n = S.draw(4) == 3 ? S.draw((uint32_t)(in.size() - pos) + 1) : in.size() - pos, cap = S.draw(4) == 3 ? S.draw(20) : ample(n);
        Call c = call(SUT, cd, in.data() + pos, n, cap), d = call(REF, rd, in.data() + pos, n, cap);
        if (c.ret != d.ret || c.err != d.err || c.used != d.used || c.out != d.out) fail("%s, step %d on %s (position %zu of %s), %zu bytes of room: %s after %zu bytes, output %s; expected %s after %zu bytes, output %s", pairname(f, t).c_str(), k, hex(in.substr(pos, n)).c_str(), pos, hex(in).c_str(), cap, en(c.err), c.used, hex(c.out).c_str(), en(d.err), d.used, hex(d.out).c_str());
        pos += c.used;
        if (c.err == EILSEQ) { errs++; pos += S.draw(4) ? f.unit : 1 + S.draw(4); label("illegal, skipped"); if (pos > in.size()) break; }
        else if (c.err == EINVAL) { label("incomplete"); if (n == in.size() - (pos - c.used)) break; }
        else if (c.err == E2BIG) label("full buffer");
        else if (pos >= in.size()) break;
    }
    if (errs) nontrivial(hash_str(in, mix(f.idx, t.idx)));
    sample(pairname(f, t) + " " + hex(in));
}

// Every character of every repertoire: cut everywhere, with its bytes damaged, and with every amount of room, behind and before others.
enum { RP = 16 };
static void step_same(Enc &f, Enc &t, const bytes &in, size_t n, size_t cap, const bytes &rest) {
    Cd cd(SUT, f, t, 0), rd(REF, f, t, 0); Call c = call(SUT, cd, in.data(), n, cap), k = call(REF, rd, in.data(), n, cap); evals(1);
    if (c.ret != k.ret || c.used != k.used || c.err != k.err || c.out != k.out) fail("%s, %zu of the bytes %s, %zu bytes of room: %s after %zu bytes, output %s; expected %s after %zu bytes, output %s", pairname(f, t).c_str(), n, hex(in).c_str(), cap, en(c.err), c.used, hex(c.out).c_str(), en(k.err), k.used, hex(k.out).c_str());
    if (c.err == EILSEQ) c.used = std::min(in.size(), c.used + f.unit);
    bytes more = in.substr(c.used) + rest; Result x = run(SUT, cd, more), y = run(REF, rd, more);
    if (x != y) fail("%s, after %zu of the bytes %s with %zu bytes of room: continuing with %s gives %s, expected %s", pairname(f, t).c_str(), n, hex(in).c_str(), cap, hex(more).c_str(), show(x).c_str(), show(y).c_str());
    label(c.err == EINVAL ? "incomplete" : c.err == EILSEQ ? "illegal" : c.err == E2BIG ? "full buffer" : "complete");
}
SWEEP(c07_rep, "c07_rep", E.size() * RP) {
    Enc &e = E[I / RP]; Rng rng(mix(base_seed(), I)), one(mix(base_seed(), e.idx)); auto list = rep_list(e, one, 2, 61); Enc &u8 = enc("utf8"); std::vector<uint32_t> nb{'a', '\n'}; for (auto r : e.reprs) nb.push_back(r); if (!e.rep.has('a')) nb = {list[0]};
    for (size_t i = I % RP; i < list.size(); i += RP) {
        uint32_t c = list[i]; text pre; if (rng(3)) pre.push_back(nb[rng((uint32_t)nb.size())]); bytes b0 = ref_encode(e, pre, false); text x = pre; x.push_back(c); bytes b1 = ref_encode(e, x, false); x.push_back(nb[rng((uint32_t)nb.size())]); bytes b2 = ref_encode(e, x, rng(2)), rest = ref_encode(e, {'z'});
        size_t from = b0.size() && b1.compare(0, b0.size(), b0) == 0 ? b0.size() : 0;
        for (size_t n = from; n <= b1.size(); n++) step_same(e, E[PIV], b2, std::min(n, b2.size()), 64, "");
        // Damage: one byte of the character replaced.
        for (int k = 0; k < 2 && b1.size() > from; k++) { bytes d = b2; size_t p = from + rng((uint32_t)(b1.size() - from)); if (p >= d.size()) continue; d[p] = (char)(k ? 0x20 + rng(0x60) : rng(256)); step_same(e, E[PIV], d, d.size(), 64, rest); }
        // Room.
        bytes u = ref_encode(u8, x); for (size_t cap = from ? from : 0; cap < b2.size(); cap++) step_same(u8, e, u, u.size(), cap, "");
        nontrivial(mix(hash_str(b2), e.idx));
    }
    sample(fmt("%s: every character cut, damaged and with every room, part %zu", e.names[0].c_str(), I % RP));
}

// Errors behind long texts: the position is exact, and going on works.
SWEEP(c07_far, "c07_far", E.size() * 2) {
    Enc &e = E[I / 2]; bool dec = I % 2; Enc &f = dec ? e : enc("utf8"), &t = dec ? E[PIV] : e; Rng rng(mix(base_seed(), I));
    for (size_t n : {200u, 255u, 256u, 257u, 1000u, 4095u, 4096u, 32767u, 32768u, 65535u, 65536u, 65537u, 70000u, 131072u}) {
        text x = long_text(e, e.rt, n, (int)rng(4), mix(base_seed(), I * 1000 + n)); bytes in = ref_encode(f, x, false); bytes bad;
        switch (rng(3)) { case 0: bad = f.unit == 1 ? "\xff\x80"_b : f.unit == 2 ? "\xdc\x00\xdc\x00"_b : "\xff\xff\xff\xff"_b; break; case 1: { bytes r = ref_encode(f, {e.reprs.empty() ? 'a' : e.reprs[rng((uint32_t)e.reprs.size())]}); bad = r.substr(0, r.size() - 1); break; } default: bad = dec ? "\x80\x81\xfe\xff"_b : ref_encode(f, {0x1F9FF}); }
        bytes tail = ref_encode(f, {'z'}); in += bad; in += tail;
        Cd cd(SUT, f, t, 0), rd(REF, f, t, 0); size_t pos = 0;
        for (int k = 0; k < 8 && pos <= in.size(); k++) {
            size_t cap = rng(3) ? ample(in.size() - pos) : (in.size() - pos) / 2 + rng(7); Call c = call(SUT, cd, in.data() + pos, in.size() - pos, cap), d = call(REF, rd, in.data() + pos, in.size() - pos, cap); evals(1);
            if (c.ret != d.ret || c.err != d.err || c.used != d.used || c.out != d.out) fail("%s, %zu characters (%s...) and %s, from byte %zu of %zu, %zu bytes of room: %s after %zu bytes, %zu bytes of output; expected %s after %zu bytes, %zu bytes of output", pairname(f, t).c_str(), n, show(x, 4).c_str(), hex(bad).c_str(), pos, in.size(), cap, en(c.err), c.used, c.out.size(), en(d.err), d.used, d.out.size());
            pos += c.used; label(c.ret != (size_t)-1 ? "success" : en(c.err)); if (c.ret != (size_t)-1) break; if (c.err == EILSEQ) pos += f.unit; if (c.err == EINVAL) break;
        }
        nontrivial(hash_str(in, I));
    }
    sample(pairname(f, t) + " errors behind long texts");
}
