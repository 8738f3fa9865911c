// C06: calls stay inside their buffers and account exactly for what they read and wrote.
// call() puts the buffers against inaccessible pages (or exactly sized heap blocks under AddressSanitizer), surrounds
// the output with fill bytes, and checks pointers, counts, input and fill bytes after every call.
#include "common.hpp"
using namespace vp;

static void agree(const std::string &what, const Call &a, const Call &b) {
    if (a.ret != b.ret || a.err != b.err || a.used != b.used || a.out != b.out)
        fail("%s: the call returns %zd, error %d, consumes %zu, writes %s; expected %zd, error %d, %zu, %s", what.c_str(), (ssize_t)a.ret, a.err, a.used, hex(a.out).c_str(), (ssize_t)b.ret, b.err, b.used, hex(b.out).c_str());
}

struct CItem { int e; int ctx; uint64_t lo, hi; };
static std::vector<std::vector<text>> ectx;
static std::vector<CItem> &citems() {
    static std::vector<CItem> v;
    if (v.empty()) {
        ectx.resize(E.size());
        for (auto &e : E) {
            ectx[e.idx] = enc_contexts(e, thorough());
            for (size_t c = 0; c < ectx[e.idx].size(); c++) for (uint64_t lo = 0; lo < e.rep.n; lo += 20000) v.push_back({e.idx, (int)c, lo, std::min<uint64_t>(e.rep.n, lo + 20000)});
        }
    }
    return v;
}
// Every character of the repertoire, after each context, with every capacity up to what it needs.
SWEEP(c06_room, "c06_room", citems().size()) {
    CItem it = citems()[I]; Enc &e = E[it.e]; bytes pre = pack(ectx[it.e][it.ctx]); Rng rng(mix(base_seed(), I));
    bool sup = e.rep.at(it.lo) >= 0x10000; uint32_t step = thorough() ? 1 : e.full && sup ? (it.ctx ? 61 : 3) : it.ctx > 8 ? 7 : it.ctx ? 3 : 1;
    for (uint64_t i = it.lo + (step > 1 ? rng(step) : 0); i < it.hi; i += step) {
        uint32_t c = e.rep.at(i); bytes in((char *)&c, 4);
        for (size_t cap = 0;; cap++) {
            Cd a(SUT, E[PIV], e, 0), b(REF, E[PIV], e, 0);
            if (pre.size()) { run(SUT, a, pre, false); run(REF, b, pre, false); }
            Call x = call(SUT, a, in.data(), 4, cap), y = call(REF, b, in.data(), 4, cap);
            if (x.ret != y.ret || x.err != y.err || x.used != y.used || x.out != y.out) agree(fmt("encoding U+%04X in %s after %s with %zu bytes of room", c, e.names[0].c_str(), show(ectx[it.e][it.ctx]).c_str(), cap), x, y);
            bool fits = y.ret != (size_t)-1 || cap > 40;
            if (fits || rng(4) == 0) { // the reset, with every capacity
                for (size_t k = 0;; k++) {
                    Call p = call(SUT, a, nullptr, 0, k, true), q = call(REF, b, nullptr, 0, k, true);
                    if (p.ret != q.ret || p.err != q.err || p.out != q.out) agree(fmt("resetting after U+%04X in %s with %zu bytes of room", c, e.names[0].c_str(), k), p, q);
                    if (q.ret != (size_t)-1 || k > 40) break;
                }
            }
            evals(1);
            if (fits) break;
        }
        nontrivial(mix(mix(c, it.ctx), e.idx));
    }
    label(e.stateful ? "stateful" : e.composing ? "composing" : "other");
    sample(fmt("%s: characters %llu.. after %s, every capacity", e.names[0].c_str(), (unsigned long long)it.lo, show(ectx[it.e][it.ctx]).c_str()));
}
// Every character as input, cut to every length, in a buffer of exactly that size.
SWEEP(c06_input, "c06_input", citems().size()) {
    CItem it = citems()[I]; Enc &e = E[it.e]; const text &pre = ectx[it.e][it.ctx]; Rng rng(mix(base_seed(), I) + 1);
    bool sup = e.rep.at(it.lo) >= 0x10000; uint32_t step = thorough() ? 1 : e.full && sup ? (it.ctx ? 61 : 3) : it.ctx > 8 ? 7 : it.ctx ? 3 : 1;
    bytes pb = ref_encode(e, pre, false);
    for (uint64_t i = it.lo + (step > 1 ? rng(step) : 0); i < it.hi; i += step) {
        text t = pre; t.push_back(e.rep.at(i)); bytes in = ref_encode(e, t, false);
        if (in.size() <= pb.size()) in = ref_encode(e, t, true);
        size_t from = in.compare(0, pb.size(), pb) == 0 ? pb.size() : 0;
        for (size_t n = from; n <= in.size(); n++) {
            Cd a(SUT, e, E[PIV], 0), b(REF, e, E[PIV], 0);
            Call x = call(SUT, a, in.data(), n, 4 * n + 64), y = call(REF, b, in.data(), n, 4 * n + 64);
            if (x.ret != y.ret || x.err != y.err || x.used != y.used || x.out != y.out) agree(fmt("decoding %s from %s", hex(in.substr(0, n)).c_str(), e.names[0].c_str()), x, y);
            if (n > from && rng(8) == 0) { // and starting later
                size_t k = rng((uint32_t)n); Cd c(SUT, e, E[PIV], 0), d(REF, e, E[PIV], 0); bytes s = in.substr(k, n - k); Call p = call(SUT, c, s.data(), s.size(), rng(20)), q = call(REF, d, s.data(), s.size(), p.out.size() + (p.err == E2BIG ? 0 : 64));
                if (p.err != E2BIG && (p.ret != q.ret || p.used != q.used || p.out != q.out)) agree(fmt("decoding %s from %s", hex(s).c_str(), e.names[0].c_str()), p, q);
            }
            evals(1);
        }
        nontrivial(mix(mix(e.rep.at(i), it.ctx), e.idx));
    }
    sample(fmt("%s: input characters %llu.. after %s, every length", e.names[0].c_str(), (unsigned long long)it.lo, show(pre).c_str()));
}
// Call histories with arbitrary lengths and capacities.
CASE(c06_rand, "c06_rand") {
    Enc &f = gen_enc(S), &t = gen_enc(S); int flags = S.draw(2);
    bytes in = gen_bytes(S, f, 50); if (S.flip(1, 300)) in = amplify(S, in, 9000);
    Cd a(SUT, f, t, flags), b(REF, f, t, flags);
    size_t pos = 0; bytes done, out; int n = 1 + S.small(30);
    std::string hist;
    for (int k = 0; k < n; k++) {
        size_t left = in.size() - pos, len, cap; bool nul = S.flip(1, 12);
        len = S.draw(3) == 0 ? left : std::min<size_t>(left, S.small(64)); cap = S.draw(3) == 0 ? S.draw(6) : S.small(200);
        if (nul) { Call x = call(SUT, a, nullptr, 0, cap, true), y = call(REF, b, nullptr, 0, cap, true); agree(fmt("%s reset with %zu bytes of room", pairname(f, t).c_str(), cap), x, y); out += x.out; continue; }
        Call x = call(SUT, a, in.data() + pos, len, cap), y = call(REF, b, in.data() + pos, len, cap);
        agree(fmt("%s, flags %d, call %d: %zu bytes %s, %zu bytes of room", pairname(f, t).c_str(), flags, k, len, hex(in.substr(pos, len)).c_str(), cap), x, y);
        pos += x.used;
        if (x.ret == (size_t)-1) label(x.err == E2BIG ? "full buffer" : x.err == EINVAL ? "incomplete" : "illegal"); else label("ok");
        if (x.err == EILSEQ) { if (S.draw(2)) pos = std::min(in.size(), pos + 1); else break; }
        if (cap == 0) label("no room at all"); if (len == 0) label("no input at all");
    }
    if (in.size() > 2 && n > 1) nontrivial(hash_str(in, mix(f.idx, t.idx)));
    sample(pairname(f, t) + fmt(" %d calls on ", n) + hex(in));
}
// What has been written is the complete conversion of what has been consumed.
CASE(c06_prefix, "c06_prefix") {
    Enc &f = gen_enc(S), &t = gen_enc(S); int flags = S.draw(2);
    bytes in = gen_bytes(S, f, 40); size_t cap = S.small(120);
    Cd a(SUT, f, t, flags); Call x = call(SUT, a, in.data(), in.size(), cap);
    // Continuing with the unconsumed rest and ample room must complete the conversion of the whole input.
    Result whole = run(SUT, f, t, flags, in);
    if (x.err == E2BIG) {
        Result rest = run(SUT, a, in.substr(x.used));
        if (x.out + rest.out != whole.out || rest.status != whole.status || x.used + rest.consumed != whole.consumed) fail("%s, flags %d, input %s, %zu bytes of room: consumed %zu bytes and wrote %s; the rest converts to %s, the whole to %s", pairname(f, t).c_str(), flags, hex(in).c_str(), cap, x.used, hex(x.out).c_str(), show(rest).c_str(), show(whole).c_str());
    } else {
        Result part = run(SUT, f, t, flags, in, false);
        if (x.out != part.out || x.used != part.consumed || x.err != part.status) fail("%s, flags %d, input %s, %zu bytes of room: consumed %zu bytes and wrote %s, with ample room %s", pairname(f, t).c_str(), flags, hex(in).c_str(), cap, x.used, hex(x.out).c_str(), show(part).c_str());
    }
    label(x.ret != (size_t)-1 ? "ok" : x.err == E2BIG ? "full buffer" : x.err == EINVAL ? "incomplete" : "illegal");
    if (x.used && x.used < in.size()) nontrivial(hash_str(in, mix(f.idx, t.idx) + cap));
    sample(pairname(f, t) + fmt(" room %zu ", cap) + hex(in));
}

// Long inputs with capacities around what they need and around powers of two.
SWEEP(c06_long, "c06_long", E.size() * 2) {
    Enc &e = E[I / 2]; Enc &u8 = enc("utf8"), &f = I % 2 ? u8 : e, &t = I % 2 ? e : u8; Rng rng(mix(base_seed(), I));
    for (size_t n : {100u, 255u, 256u, 300u, 1023u, 1024u, 1025u, 4095u, 4096u, 4097u, 8192u, 30000u, 65536u, 70000u}) {
        text x = long_text(e, e.rt, n, (int)rng(4), mix(base_seed(), I * 77 + n)); bytes in = ref_encode(f, x, rng(2)); size_t need = run(REF, f, t, 0, in, false).out.size();
        std::vector<size_t> caps{need, need ? need - 1 : 0, need + 1, need ? need - std::min<size_t>(need, 1 + rng(8)) : 0, rng((uint32_t)need + 1), 0}; for (size_t p = 128; p < need; p *= 2) if (rng(4) == 0) caps.push_back(p - 1 + rng(3));
        for (size_t cap : caps) { Cd a(SUT, f, t, 0), b(REF, f, t, 0); Call p = call(SUT, a, in.data(), in.size(), cap), q = call(REF, b, in.data(), in.size(), cap); if (p.ret != q.ret || p.err != q.err || p.used != q.used || p.out != q.out) fail("%s, %zu characters (%s...), %zu bytes of room of %zu needed: returns %zd, error %d, consumes %zu, writes %zu bytes; expected %zd, error %d, %zu, %zu", pairname(f, t).c_str(), n, show(x, 4).c_str(), cap, need, (ssize_t)p.ret, p.err, p.used, p.out.size(), (ssize_t)q.ret, q.err, q.used, q.out.size()); evals(1); nontrivial(mix(hash_str(in, I), cap)); }
    }
    label("long inputs");
}
