// C13: one-shot C conversions agree with streaming and with predicted sizes.
#include "stream.hpp"
using namespace vp;
// What streaming gives: the output of the complete conversion, or the error.
static Result streamed(Enc &f, Enc &t, int fl, const bytes &in) {
    Result a = run(SUT, f, t, fl, in), b = run(REF, f, t, fl, in);
    if (a != b) fail("%s, input %s: streaming gives %s, expected %s", pairname(f, t).c_str(), hex(in).c_str(), show(a).c_str(), show(b).c_str());
    return a;
}
static int err(const Result &w) { return w.status ? w.status : w.flush > 0 ? w.flush : 0; }
// The error code of the measuring and allocating forms: truncated input may be called illegal or incomplete.
static bool code_ok(int e, const Result &w) { return e == err(w) || (err(w) == EINVAL && e == EILSEQ); }
static void fixed(Enc &f, Enc &t, int fl, const bytes &in, const Result &w, size_t cap, void *cd) {
    const size_t RZ = 32; errno = 0;
#ifdef __SANITIZE_ADDRESS__
    char *p = (char *)malloc(cap ? cap : 1), *q = cap ? p : p + 1; memset(p, 0x5A, cap ? cap : 1); int r = SUT.static_size(cd, in.data(), in.size(), q, cap), e = errno; bytes got(q, cap); free(p);
#else
    static thread_local bytes buf; buf.assign(cap + 2 * RZ, '\x5A'); char *q = &buf[RZ]; int r = SUT.static_size(cd, in.data(), in.size(), q, cap), e = errno; bytes got(q, cap);
    for (size_t i = 0; i < RZ; i++) if (buf[i] != 0x5A || buf[RZ + cap + i] != 0x5A) fail("%s, input %s: fixed-size conversion writes outside its buffer of %zu bytes", pairname(f, t).c_str(), hex(in).c_str(), cap);
#endif
    std::string what = fmt("%s%s, input %s, buffer of %zu bytes (%zu needed)", pairname(f, t).c_str(), fl ? ", discarding" : "", hex(in).c_str(), cap, w.out.size());
    if (err(w) == EINVAL) { // an incomplete end: what precedes it is converted, and the output is finished
        if (f.bom) return;
        bytes want(cap, '\x5A'); Cd ref(REF, f, t, fl); errno = 0; int rr = REF.static_size(ref, in.data(), in.size(), &want[0], cap);
        if (r != rr || (r == -1 && e != errno)) fail("%s: returns %d, error %d for input with an incomplete end, expected %d", what.c_str(), r, e, rr);
        if (r == 0 && got != want) fail("%s: the input has an incomplete end; writes %s, expected %s", what.c_str(), hex(got).c_str(), hex(want).c_str());
        return;
    }
    if (err(w)) { if (r != -1) fail("%s: returns %d for input that streaming rejects", what.c_str(), r); if (cap >= w.out.size() + 64 && e != EILSEQ) fail("%s: error code %d", what.c_str(), e); if (e != EILSEQ && e != E2BIG) fail("%s: error code %d", what.c_str(), e); return; }
    if (cap >= w.out.size()) {
        if (r != 0) fail("%s: returns %d, error %d", what.c_str(), r, e);
        for (size_t i = w.out.size(); i < cap; i++) if (got[i] != 0x5A) fail("%s: byte %zu, beyond the result, was changed", what.c_str(), i);
        if (got.compare(0, w.out.size(), w.out)) fail("%s: writes %s, streaming gives %s", what.c_str(), hex(got.substr(0, w.out.size())).c_str(), hex(w.out).c_str());
    } else {
        if (r != -1 || e != E2BIG) fail("%s: returns %d, error %d instead of a full-buffer error", what.c_str(), r, e);
    }
}
static void alloc(Src &S, Enc &f, Enc &t, int fl, const bytes &in, const Result &w, void *cd) {
    std::string what = fmt("%s%s, input %s", pairname(f, t).c_str(), fl ? ", discarding" : "", hex(in).c_str()); long l0 = 0; if (mem::available) { mem::reset(); }
    char *blk = nullptr; size_t was = 0; int mode = S.draw(4); if (mode) { was = mode == 1 ? 1 : mode == 2 ? S.draw(40) + 1 : w.out.size() + S.draw(300) + 1; InLib in_; blk = (char *)malloc(was); memset(blk, 0x33, was); }
    char *p = blk; size_t n = 12345; errno = 0; int r, e; { InLib in_; r = SUT.convert(cd, in.data(), in.size(), &p, &n); e = errno; }
    if (err(w)) {
        if (r != -1 || !code_ok(e, w)) fail("%s: allocating conversion returns %d, error %d, expected failure with %d", what.c_str(), r, e, err(w));
        if (p && p != blk) fail("%s: failed allocating conversion leaves another block", what.c_str());
        if (p && memcmp(p, bytes(was, 0x33).data(), 1)) fail("%s: failed allocating conversion changed the caller's block", what.c_str());
        { InLib in_; free(p); } label("failing");
    } else {
        if (r != 0 || !p) fail("%s: allocating conversion returns %d, error %d", what.c_str(), r, e);
        if (n != w.out.size()) fail("%s: allocating conversion gives length %zu, expected %zu", what.c_str(), n, w.out.size());
        bytes got(p, n); { InLib in_; free(p); }
        if (got != w.out) fail("%s: allocating conversion gives %s, expected %s", what.c_str(), hex(got).c_str(), hex(w.out).c_str());
    }
    if (S.draw(40) == 39) { size_t m = 5; errno = 0; { InLib in_; r = SUT.convert(cd, in.data(), in.size(), nullptr, &m); e = errno; } if (r != -1 || !e) fail("%s: allocating conversion without a place for the block returns %d, error %d", what.c_str(), r, e); label("no place for the block"); }
    if (mem::available && mem::live() != 0) fail("%s: the allocating conversion leaks %ld blocks", what.c_str(), mem::live());
    (void)l0;
}
static void measure(Enc &f, Enc &t, int fl, const bytes &in, const Result &w, void *cd) {
    errno = 0; size_t n = SUT.result_size(cd, in.data(), in.size()); int e = errno;
    if (err(w)) { if (n != (size_t)-1 || !code_ok(e, w)) fail("%s%s, input %s: predicted size %zd, error %d, expected error %d", pairname(f, t).c_str(), fl ? ", discarding" : "", hex(in).c_str(), (ssize_t)n, e, err(w)); }
    else if (n != w.out.size()) fail("%s%s, input %s: predicted size %zd, streaming gives %zu bytes", pairname(f, t).c_str(), fl ? ", discarding" : "", hex(in).c_str(), (ssize_t)n, w.out.size());
}
static bytes gen_in(Src &S, Enc &f, Enc &t, int max) {
    switch (S.draw(5)) {
    case 0: return gen_bytes(S, f, max);
    case 1: return gen_valid(S, f, max);
    case 2: { text k; for (auto c : gen_text(S, t, max / 2)) if (f.rep.has(c)) k.push_back(c); return ref_encode(f, k, S.draw(4) != 0); }
    case 3: { text k; for (auto c : gen_any(S, t, max / 2)) if (f.rep.has(c)) k.push_back(c); return ref_encode(f, k); }
    default: return ref_encode(f, gen_text(S, f, max / 2));
    }
}
CASE(c13_small, "c13_small") {
    Enc &f = gen_enc(S), &t = gen_enc(S); int fl = S.draw(2); bytes in = gen_in(S, f, t, 24); Result w = streamed(f, t, fl, in); sample(pairname(f, t) + " " + hex(in));
    if (f.bom) { // the learned byte order stays: a fresh descriptor for each call
        { Cd a(SUT, f, t, fl); measure(f, t, fl, in, w, a); } { Cd a(SUT, f, t, fl); alloc(S, f, t, fl, in, w, a); }
        for (size_t cap = 0; cap <= w.out.size() + 2; cap++) { Cd a(SUT, f, t, fl); fixed(f, t, fl, in, w, cap, a); }
    } else {
        Cd a(SUT, f, t, fl); measure(f, t, fl, in, w, a); alloc(S, f, t, fl, in, w, a);
        for (size_t cap = 0; cap <= w.out.size() + 2; cap++) { fixed(f, t, fl, in, w, cap, a); }
        fixed(f, t, fl, in, w, w.out.size() + 100 + S.draw(5000), a); measure(f, t, fl, in, w, a);
    }
    if (w.out.size() > 1) nontrivial(hash_str(in, mix(mix(f.idx, t.idx), fl))); label(err(w) == 0 ? "convertible" : err(w) == EINVAL ? "truncated" : "illegal");
}
// Lengths around the size of internal buffers, for input and output.
CASE(c13_long, "c13_long") {
    Enc &f = gen_enc(S), &t = gen_enc(S); int fl = S.draw(2); bytes unit = gen_in(S, f, t, 12), in;
    if (S.draw(3)) { // output length near a multiple of a power of two
        Result u = run(REF, f, t, 1, unit); size_t per = std::max<size_t>(1, u.out.size()), target = (size_t)4096 * (1 + S.draw(4)) / (1u << S.draw(5)) + S.draw(9) - 4; bytes pad = ref_encode(f, gen_text(S, f, 6)); size_t n = target / per + S.draw(3); if (n * unit.size() > 60000) n = 60000 / (unit.size() + 1);
        in = S.draw(2) ? pad : bytes(); for (size_t i = 0; i < n; i++) in += unit; in += S.draw(2) ? ref_encode(f, gen_text(S, f, 4), false) : bytes();
        // Fine adjustment with single-byte letters, where the pair has them.
        bytes one = ref_encode(f, {'x'}); if (!f.stateful || S.draw(2)) { uint32_t k = S.draw(8); while (k--) in = one + in; }
    } else in = amplify(S, unit, 20000);
    if (S.draw(6) == 0) in = mutate(S, f, in);
    Result w = streamed(f, t, fl, in); sample(pairname(f, t) + " " + hex(in, 60));
    { Cd a(SUT, f, t, fl); measure(f, t, fl, in, w, a); if (!f.bom) { alloc(S, f, t, fl, in, w, a); fixed(f, t, fl, in, w, w.out.size(), a); if (w.out.size()) { fixed(f, t, fl, in, w, w.out.size() - 1, a); fixed(f, t, fl, in, w, S.draw((uint32_t)w.out.size()), a); } fixed(f, t, fl, in, w, w.out.size() + S.draw(20), a); } }
    { Cd a(SUT, f, t, fl); alloc(S, f, t, fl, in, w, a); } { Cd a(SUT, f, t, fl); fixed(f, t, fl, in, w, w.out.size() + S.draw(3), a); }
    if (w.out.size() > 4000) label("more than 4000 bytes of output"); if (w.out.size() > 1) nontrivial(hash_str(in, mix(mix(f.idx, t.idx), fl)));
}
// Output lengths 4080..4110, 8180..8200 one by one, for every encoding as target and as source.
SWEEP(c13_edges, "c13_edges", E.size() * 2) {
    Enc &e = E[I / 2]; bool as_target = I % 2; Enc &f = as_target ? E[PIV] : e, &t = as_target ? e : E[PIV]; Rng rng(mix(base_seed(), I)); Src S; S.st = mix(base_seed(), I);
    text pool; for (auto c : e.reprs) pool.push_back(c); for (int k = 0; k < 6; k++) pool.push_back(e.rt.at(rng((uint32_t)e.rt.n))); if (!e.rt.has('a')) pool.clear(); if (pool.empty()) pool.push_back(e.rt.at(0));
    size_t R = thorough() ? 40 : 3;
    for (size_t r = 0; r < R; r++) {
        text base; while (base.size() < 60) base.push_back(pool[rng((uint32_t)pool.size())]);
        size_t per = std::max<size_t>(1, run(REF, f, t, 1, ref_encode(f, base)).out.size());
        for (size_t edge : {4096u, 8192u}) {
            text x; size_t n = (edge - 40) / per; for (size_t k = 0; k < n; k++) x.insert(x.end(), base.begin(), base.end());
            for (int add = 0; add < 80; add++) {
                bytes in = ref_encode(f, x); Result w = run(REF, f, t, 0, in); if (err(w)) break; 
                Cd a(SUT, f, t, 0); measure(f, t, 0, in, w, a); evals(1); nontrivial(hash_str(in, I));
                if (w.out.size() > edge + 30) break;
                x.push_back(add % 3 ? pool[rng((uint32_t)pool.size())] : 'a');
            }
        }
    }
    label(as_target ? "as target" : "as source");
}

// The whole repertoire of every encoding, both ways, through every form.
SWEEP(c13_rep, "c13_rep", E.size() * 2) {
    Enc &e = E[I / 2]; bool as_target = I % 2; Enc *uni[] = {&E[PIV], &enc("utf8"), &enc("utf16be")}; Rng rng(mix(base_seed(), I)), one(mix(base_seed(), e.idx)); Src S; S.st = mix(base_seed(), I); auto list = rep_list(e, one, 2, 61);
    for (size_t i = 0; i < list.size();) {
        text x; size_t len = rng(4) == 0 ? 1 + rng(3) : 1 + rng(60); for (; x.size() < len && i < list.size(); i++) { x.push_back(list[i]); if (rng(12) == 0) x.push_back('a'); if (rng(12) == 0 && !e.reprs.empty()) x.push_back(e.reprs[rng((uint32_t)e.reprs.size())]); }
        Enc &o = *uni[rng(3)], &f = as_target ? o : e, &t = as_target ? e : o; int fl = rng(4) == 0; bytes in = ref_encode(f, x, rng(2)); Result w = streamed(f, t, fl, in);
        Cd a(SUT, f, t, fl); measure(f, t, fl, in, w, a); alloc(S, f, t, fl, in, w, a); fixed(f, t, fl, in, w, w.out.size(), a); if (w.out.size()) { fixed(f, t, fl, in, w, w.out.size() - 1, a); fixed(f, t, fl, in, w, rng((uint32_t)w.out.size()), a); } fixed(f, t, fl, in, w, w.out.size() + rng(40), a);
        evals(1); nontrivial(hash_str(in, mix(f.idx, t.idx)));
    }
    label("characters swept", list.size()); sample(fmt("%s: whole repertoire, %s", e.names[0].c_str(), as_target ? "as target" : "as source"));
}

// Texts of all lengths up to 300 and around powers of two, through every form.
SWEEP(c13_len, "c13_len", E.size() * 4) {
    Enc &e = E[I / 4]; bool as_target = I % 2; Enc &u8 = enc("utf8"), &f = as_target ? u8 : e, &t = as_target ? e : u8; uint64_t seed = mix(base_seed(), I); Rng rng(seed); Src S; S.st = seed; text x = long_text(e, e.rt, 140000, I % 4 < 2 ? (int)rng(2) : 3, seed);
    for (size_t n : edge_lengths()) {
        if (n > 9000 && !thorough() && rng(2)) continue; bytes in = ref_encode(f, text(x.begin(), x.begin() + n)); Result w = run(REF, f, t, 0, in); Cd a(SUT, f, t, 0);
        measure(f, t, 0, in, w, a); alloc(S, f, t, 0, in, w, a); fixed(f, t, 0, in, w, w.out.size() + rng(2), a); if (w.out.size()) fixed(f, t, 0, in, w, w.out.size() - 1, a); evals(1); if (n) nontrivial(mix(seed, n));
    }
    label("lengths", edge_lengths().size());
}
