// C02: encoding follows every encoding's character map, for every code point, in every state and context.
#include "common.hpp"
using namespace vp;

static void cmp(Enc &e, const text &t, int flags) {
    bytes in = pack(t);
    Result got = run(SUT, E[PIV], e, flags, in), want = run(REF, E[PIV], e, flags, in);
    if (got != want) fail("encoding %s in %s (flags %d) gives %s, but the encoding's definition says %s", show(t).c_str(), e.names[0].c_str(), flags, show(got).c_str(), show(want).c_str());
    evals(1);
    if (want.out.size() && (t.size() > 1 || t[0] >= 0x80)) nontrivial(hash_str(in, e.idx));
}
static bool tag(uint32_t c) { return c >> 7 == 0xE0000 >> 7; }

// ------------------------------------------------------------- every code point, singly
enum { PARTS = 34 };
SWEEP(c02_all, "c02_all", E.size() * PARTS) {
    Enc &e = E[I % E.size()]; uint32_t lo = (uint32_t)(I / E.size()) * 0x8000, hi = lo + 0x8000;
    text lack;
    auto flush = [&] {
        if (lack.empty()) return;
        // Code points that the encoding does not contain: dropped in discard mode, each counted, except tags.
        size_t want = 0; for (auto c : lack) if (!tag(c)) want++;
        Result r = run(SUT, E[PIV], e, 1, pack(lack));
        if (r.out.size() || r.count != want || r.status || r.flush) {
            for (auto c : lack) { Result s = run(SUT, E[PIV], e, 1, pack({c})); if (s.out.size() || s.count != !tag(c) || s.status || s.flush) fail("U+%04X is not in %s but encoding it gives %s", c, e.names[0].c_str(), show(s).c_str()); }
            fail("encoding %s, which %s does not contain, gives %s", show(lack).c_str(), e.names[0].c_str(), show(r).c_str());
        }
        evals(lack.size()); label("code points the encoding lacks", lack.size()); lack.clear();
    };
    for (uint32_t c = lo; c < hi; c++) {
        if (e.rep.has(c)) cmp(e, {c}, 0);
        else if (c >= 0xD800 && c < 0xE000) cmp(e, {c}, 1);
        else if (c == 0xFEFF || c >= 0x110000) cmp(e, {c}, 1);
        else { lack.push_back(c); if (lack.size() == 64) flush(); }
    }
    flush();
    if (lo == 0) { Rng rng(mix(base_seed(), I)); for (int k = 0; k < 300; k++) { uint32_t c = rng(2) ? 0x110000 + rng(0x7FEF0000) : (1u << (21 + rng(10))) + rng(3) - 1; cmp(e, {c}, 1); cmp(e, {'a', c}, 0); } }
    sample(fmt("%s: U+%04X..U+%04X singly", e.names[0].c_str(), lo, hi - 1));
}

// ------------------------------------------------------------- every repertoire character after a context
struct CItem { int e; int ctx; uint64_t lo, hi; };
static std::vector<std::vector<text>> ectx;
static std::vector<CItem> &citems() {
    static std::vector<CItem> v;
    if (v.empty()) {
        ectx.resize(E.size());
        for (auto &e : E) {
            ectx[e.idx] = enc_contexts(e, thorough());
            for (size_t c = 1; c < ectx[e.idx].size(); c++) for (uint64_t lo = 0; lo < e.rep.n; lo += 20000) v.push_back({e.idx, (int)c, lo, std::min<uint64_t>(e.rep.n, lo + 20000)});
        }
    }
    return v;
}
SWEEP(c02_ctx, "c02_ctx", citems().size()) {
    CItem it = citems()[I]; Enc &e = E[it.e]; const text &pre = ectx[it.e][it.ctx]; Rng rng(mix(base_seed(), I));
    uint32_t step = e.full && !thorough() ? 11 : 1;
    for (uint64_t i = it.lo + (step > 1 ? rng(step) : 0); i < it.hi; i += step) {
        text t = pre; t.push_back(e.rep.at(i));
        switch (rng(4)) { case 0: break; case 1: t.push_back('A'); break; case 2: if (!e.reprs.empty()) t.push_back(e.reprs[rng((uint32_t)e.reprs.size())]); break; default: t.push_back(e.rep.at(std::min<uint64_t>(i + 1 + rng(3), e.rep.n - 1))); }
        if (rng(16) == 0) { text u = t; u.insert(u.begin() + rng((uint32_t)u.size()), rng(2) ? 0x20000 + rng(0x10000) : 0xE000 + rng(0x1900)); cmp(e, u, rng(2)); }
        cmp(e, t, 0);
    }
    label(e.stateful ? "stateful encoder contexts" : e.composing ? "composing encoder contexts" : "other contexts");
    sample(fmt("%s: characters %llu.. of the repertoire after %s", e.names[0].c_str(), (unsigned long long)it.lo, show(pre).c_str()));
}

// ------------------------------------------------------------- published tables
struct Tab { std::string enc; std::vector<std::pair<bytes, text>> m; };
static std::vector<Tab> &tabs() {
    static std::vector<Tab> v;
    if (v.empty()) {
        const char *d = getenv("VP_TABLES"); FILE *f = d ? fopen(d, "r") : nullptr; if (!f) { fprintf(stderr, "no tables\n"); exit(2); }
        char l[512];
        while (fgets(l, sizeof l, f)) {
            if (l[0] == '@') { char n[64]; sscanf(l + 1, "%63s", n); v.push_back({n, {}}); continue; }
            if (strchr(l, '!')) continue; // published as one-way (decoding only)
            bytes b; text t; char *p = l; char *q = strchr(p, ' '); if (!q) continue;
            for (; p + 1 < q; p += 2) { unsigned x; sscanf(p, "%2x", &x); b += (char)x; }
            p = q; while (*p) { char *r; unsigned long x = strtoul(p, &r, 16); if (r == p) break; t.push_back((uint32_t)x); p = r; }
            v.back().m.push_back({b, t});
        }
        fclose(f);
    }
    return v;
}
SWEEP(c02_tables, "c02_tables", tabs().size()) {
    Tab &t = tabs()[I];
    Enc *e = nullptr; for (auto &x : E) for (auto &n : x.names) if (n == t.enc) e = &x;
    if (!e) fail("table for an unknown encoding %s", t.enc.c_str());
    for (auto &m : t.m) {
        Result r = run(SUT, E[PIV], *e, 0, pack(m.second));
        if (r.status != 0 || r.flush != 0 || r.count || r.out != m.first) fail("encoding %s in %s gives %s, the published table says %s", show(m.second).c_str(), t.enc.c_str(), show(r).c_str(), hex(m.first).c_str());
        evals(1); nontrivial(hash_str(m.first, e->idx));
    }
    label("published table entries", t.m.size());
    sample(fmt("published table of %s: %zu reversible entries", t.enc.c_str(), t.m.size()));
}

// ------------------------------------------------------------- generated sequences
CASE(c02_seq, "c02_seq") {
    Enc &e = gen_enc(S); int flags = S.draw(2);
    text t = S.draw(2) ? gen_text(S, e, 40) : gen_any(S, e, 40);
    if (S.flip(1, 400)) t = amplify(S, t, 20000);
    if (t.empty()) t.push_back('a');
    label(e.stateful ? "stateful" : e.composing ? "composing" : e.full ? "full Unicode" : e.rep.n > 300 ? "multibyte" : "single-byte");
    sample(e.names[0] + " " + show(t));
    cmp(e, t, flags); evals((uint64_t)-1);
}

// ------------------------------------------------------------- all sequences of representative characters and combinations
static std::vector<int> &SD() { static std::vector<int> v; if (v.empty()) for (auto &e : E) if (e.stateful || e.composing) v.push_back(e.idx); return v; }
enum { SP = 64 };
SWEEP(c02_states, "c02_states", SD().size() * SP) {
    Enc &e = E[SD()[I / SP]]; size_t part = I % SP; auto el = text_elems(e, 48); size_t n = el.size(); Rng rng(mix(base_seed(), I));
    int depth = thorough() || n <= 24 ? 4 : 3; uint64_t total = 1; for (int d = 0; d < depth; d++) total *= n;
    for (uint64_t k = part; k < total; k += SP) {
        text t; uint64_t r = k; for (int d = 0; d < depth; d++, r /= n) t.insert(t.end(), el[r % n].begin(), el[r % n].end());
        cmp(e, t, 0);
        for (int j = 0; j < 2; j++) { const text &x = el[rng((uint32_t)n)]; t.insert(t.end(), x.begin(), x.end()); cmp(e, t, 0); }
    }
    sample(fmt("%s: sequences of %d of %zu short texts, part %zu", e.names[0].c_str(), depth, n, part)); label("sequences of short texts: " + e.id, total / SP);
}

// ------------------------------------------------------------- texts of all lengths up to 300 and around powers of two
SWEEP(c02_len, "c02_len", E.size() * 4) {
    Enc &e = E[I / 4]; uint64_t seed = mix(base_seed(), I); text t = long_text(e, e.rep, 140000, I % 4, seed); size_t total = 0;
    for (size_t n : edge_lengths()) {
        bytes b = pack(text(t.begin(), t.begin() + n)); total += n;
        Result got = run(SUT, E[PIV], e, 0, b), want = run(REF, E[PIV], e, 0, b); evals(1); if (n) nontrivial(mix(seed, n));
        if (got != want) { size_t k = 0; while (k < got.out.size() && k < want.out.size() && got.out[k] == want.out[k]) k++; fail("encoding %zu characters (%s...) in %s: %zu bytes, status %d, consumed %zu, count %zu, flush %d; expected %zu bytes, status %d, consumed %zu, count %zu; the first difference is at byte %zu", n, show(t, 4).c_str(), e.names[0].c_str(), got.out.size(), got.status, got.consumed, got.count, got.flush, want.out.size(), want.status, want.consumed, want.count, k); }
    }
    label("characters in long texts", total); sample(fmt("%s: texts of 0 to 131073 characters like %s", e.names[0].c_str(), show(t, 4).c_str()));
}
