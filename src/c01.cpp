// C01: decoding follows every encoding's character map, in every state and context.
// Oracle: the frozen reference decoder (validated against the published tables) and the published tables themselves.
#include "common.hpp"
using namespace vp;

static void cmp(Enc &e, const bytes &in) {
    Result got = run(SUT, e, E[PIV], 0, in), want = run(REF, e, E[PIV], 0, in);
    if (got != want) fail("decoding %s from %s gives %s, but the encoding's definition says %s", hex(in).c_str(), e.names[0].c_str(), show(got).c_str(), show(want).c_str());
    evals(1);
    if (want.out.size() && (want.status == 0 || want.consumed)) nontrivial(hash_str(in, e.idx));
}

// ------------------------------------------------------------- all byte sequences, per decoder state
struct Item { int e; int ctx; int part; };
static std::vector<std::vector<bytes>> ctxs;
static std::vector<Item> &items() {
    static std::vector<Item> v;
    if (v.empty()) {
        ctxs.resize(E.size());
        for (auto &e : E) {
            ctxs[e.idx] = dec_contexts(e, thorough());
            bool multi = e.rep.n > 300 || e.stateful;
            for (size_t c = 0; c < ctxs[e.idx].size(); c++) for (int p = 0; p < (multi ? 16 : 1); p++) v.push_back({e.idx, (int)c, multi ? p : -1});
        }
    }
    return v;
}
static void trie(Enc &e, const bytes &pre, bytes s, bool first, Rng &rng) {
    // s was reported incomplete: try every next byte.
    size_t depth = s.size();
    bool sampled = (e.id.rfind("gb18030", 0) == 0 && depth >= 3 && !(thorough() && first)) || (depth >= 3 && !first) || (e.stateful && depth >= 2) || (e.id == "utf8" && depth >= 3 && (unsigned char)s[0] > 0xF4) || depth >= 4 || ((e.id == "c99" || e.id == "java") && depth >= 3);
    for (int b = 0; b < 256; b++) {
        if (sampled && !(b >= 0x30 && b <= 0x39) && rng(32) != 0) continue;
        bytes t = s + (char)b, in = pre + t;
        cmp(e, in);
        if (depth >= 9) continue;
        if ((e.id == "c99" || e.id == "java") && depth >= 3 && rng(12) != 0) continue;
        Result r = run(REF, e, E[PIV], 0, in);
        if (r.status == EINVAL && r.consumed <= pre.size()) trie(e, pre, t, first, rng);
    }
}
SWEEP(c01_trie, "c01_trie", items().size()) {
    Item it = items()[I]; Enc &e = E[it.e]; const bytes &pre = ctxs[it.e][it.ctx]; Rng rng(mix(base_seed(), I));
    if (e.unit == 1) {
        for (int b = 0; b < 256; b++) {
            if (it.part >= 0 && b / 16 != it.part) continue;
            bytes s(1, (char)b); cmp(e, pre + s);
            Result r = run(REF, e, E[PIV], 0, pre + s);
            if (r.status == EINVAL && r.consumed <= pre.size()) trie(e, pre, s, it.ctx == 0, rng);
            // Composing decoders hold characters back: all pairs (and sampled triples) of bytes.
            if (e.composing && it.part < 0) for (int c = 0; c < 256; c++) {
                bytes t = pre + s + (char)c; cmp(e, t);
                for (int k = 0; k < (thorough() ? 32 : 4); k++) cmp(e, t + (char)(rng(2) ? 0xB0 + rng(0x4F) : rng(256)));
            }
        }
    } else if (e.unit == 2) {
        for (uint32_t u = it.part * 4096; u < (uint32_t)(it.part + 1) * 4096; u++) {
            bytes a{(char)(u >> 8), (char)u}, b{(char)u, (char)(u >> 8)};
            cmp(e, pre + a); cmp(e, pre + a.substr(0, 1));
            bool sur = (u >= 0xD800 && u < 0xE000);
            if (sur) for (const bytes &h : {a, b}) {
                for (int k = 0; k < 24; k++) { uint32_t l = k < 12 ? 0xDC00 + rng(0x400) : k < 14 ? (k == 12 ? 0xDC00 : 0xDFFF) : k < 16 ? (k == 14 ? 0xDBFF : 0xE000) : rng(65536); bytes x{(char)(l >> 8), (char)l}, y{(char)l, (char)(l >> 8)}; cmp(e, pre + h + x); cmp(e, pre + h + y); cmp(e, pre + h + x.substr(0, 1)); }
                if (it.ctx == 0 && u < 0xDC00) for (uint32_t l = 0xDC00; l < 0xE000; l++) { bytes x{(char)(l >> 8), (char)l}, y{(char)l, (char)(l >> 8)}; cmp(e, h == a ? h + x : h + y); }
            } else if (rng(16) == 0) { uint32_t l = rng(65536); cmp(e, pre + a + bytes{(char)(l >> 8), (char)l}); }
        }
    } else {
        uint32_t step = (it.ctx == 0 || thorough()) ? 1 : 37;
        for (uint32_t u = it.part * 0x11200 + (step > 1 ? rng(step) : 0); u < (uint32_t)(it.part + 1) * 0x11200; u += step) {
            bytes a{(char)(u >> 24), (char)(u >> 16), (char)(u >> 8), (char)u}; cmp(e, pre + a);
            bytes b{(char)u, (char)(u >> 8), (char)(u >> 16), (char)(u >> 24)}; cmp(e, pre + b);
        }
        for (int k = 0; k < 3000; k++) { uint32_t u = rng(2) ? (1u << rng(32)) + rng(5) - 2 : rng(0xFFFFFFFF); bytes a{(char)(u >> 24), (char)(u >> 16), (char)(u >> 8), (char)u}; cmp(e, pre + a); cmp(e, pre + a.substr(0, 1 + rng(3))); cmp(e, pre + a + a.substr(0, rng(4))); }
    }
    sample(fmt("%s: all continuations of %s, part %d", e.names[0].c_str(), hex(pre).c_str(), it.part));
    label(e.stateful ? "stateful decoder items" : e.composing ? "composing decoder items" : e.unit > 1 ? "16/32-bit decoder items" : "other decoder items");
}

// ------------------------------------------------------------- every character of the repertoire, encoded by the reference after a context
struct CItem { int e; int ctx; uint64_t lo, hi; };
static std::vector<std::vector<text>> ectx;
static std::vector<CItem> &citems() {
    static std::vector<CItem> v;
    if (v.empty()) {
        ectx.resize(E.size());
        for (auto &e : E) {
            ectx[e.idx] = enc_contexts(e, thorough());
            for (size_t c = 0; c < ectx[e.idx].size(); c++) for (uint64_t lo = 0; lo < e.rep.n; lo += 20000) v.push_back({e.idx, (int)c, lo, std::min<uint64_t>(e.rep.n, lo + 20000)});
        }
    }
    return v;
}
SWEEP(c01_rep, "c01_rep", citems().size()) {
    CItem it = citems()[I]; Enc &e = E[it.e]; const text &pre = ectx[it.e][it.ctx]; Rng rng(mix(base_seed(), I));
    uint32_t step = e.full && it.ctx > 0 && !thorough() ? 11 : 1;
    for (uint64_t i = it.lo + (step > 1 ? rng(step) : 0); i < it.hi; i += step) {
        text t = pre; t.push_back(e.rep.at(i));
        switch (rng(4)) { case 0: break; case 1: t.push_back('A'); break; case 2: if (!e.reprs.empty()) t.push_back(e.reprs[rng((uint32_t)e.reprs.size())]); break; default: t.push_back(e.rep.at(std::min<uint64_t>(i + 1 + rng(3), e.rep.n - 1))); }
        bytes b = ref_encode(e, t, rng(2));
        cmp(e, b);
        if (rng(4) == 0 && b.size() > 1) cmp(e, b.substr(0, b.size() - 1 - rng(3) % b.size()));
        if (rng(8) == 0) { b[rng((uint32_t)b.size())] ^= 1 << rng(8); cmp(e, b); }
    }
    sample(fmt("%s: characters %llu.. of the repertoire after %s", e.names[0].c_str(), (unsigned long long)it.lo, show(pre).c_str()));
}

// ------------------------------------------------------------- published tables, independent of the reference
// data/tables.txt: "@ NAME" starts an encoding, then lines "bytes-hex codepoints-hex..." from the published mapping files.
struct Tab { std::string enc; std::vector<std::pair<bytes, text>> m; };
static std::vector<Tab> &tabs() {
    static std::vector<Tab> v;
    if (v.empty()) {
        const char *d = getenv("VP_TABLES"); FILE *f = d ? fopen(d, "r") : nullptr; if (!f) { fprintf(stderr, "no tables\n"); exit(2); }
        char l[512];
        while (fgets(l, sizeof l, f)) {
            if (l[0] == '@') { char n[64]; sscanf(l + 1, "%63s", n); v.push_back({n, {}}); continue; }
            bytes b; text t; char *p = l; char *q = strchr(p, ' '); if (!q) continue;
            for (; p + 1 < q; p += 2) { unsigned x; sscanf(p, "%2x", &x); b += (char)x; }
            p = q; while (*p) { char *r; unsigned long x = strtoul(p, &r, 16); if (r == p) break; t.push_back((uint32_t)x); p = r; }
            v.back().m.push_back({b, t});
        }
        fclose(f);
    }
    return v;
}
SWEEP(c01_tables, "c01_tables", tabs().size()) {
    Tab &t = tabs()[I]; int ix = SUT.lookup(t.enc.c_str());
    Enc *e = nullptr; for (auto &x : E) for (auto &n : x.names) if (n == t.enc) e = &x;
    if (!e) fail("table for an unknown encoding %s", t.enc.c_str());
    if (ix < 0) fail("the encoding %s is not known", t.enc.c_str());
    for (auto &m : t.m) {
        Result r = run(SUT, *e, E[PIV], 0, m.first);
        if (r.status != 0 || r.flush != 0 || unpack(r.out) != m.second) fail("decoding %s from %s gives %s, the published table says %s", hex(m.first).c_str(), t.enc.c_str(), show(r).c_str(), show(m.second).c_str());
        evals(1); nontrivial(hash_str(m.first, e->idx));
    }
    label("published table entries", t.m.size());
    sample(fmt("published table of %s: %zu entries", t.enc.c_str(), t.m.size()));
}

// ------------------------------------------------------------- generated sequences
CASE(c01_seq, "c01_seq") {
    Enc &e = gen_enc(S);
    bytes b = gen_bytes(S, e, 60);
    if (S.flip(1, 400)) b = amplify(S, b, 70000);
    // the same bytes again behind a prefix, so that state carried over matters
    if (S.flip(1, 8)) b = gen_valid(S, e, 20) + b;
    label(e.stateful ? "stateful" : e.composing ? "composing" : e.unit > 1 ? "16/32-bit" : e.rep.n > 300 ? "multibyte" : "single-byte");
    sample(e.names[0] + " " + hex(b));
    cmp(e, b); evals((uint64_t)-1);
}

// ------------------------------------------------------------- all sequences of shift sequences, line ends and codes up to a depth
static std::vector<int> &SD() { static std::vector<int> v; if (v.empty()) for (auto &e : E) if (!e.toks.empty()) v.push_back(e.idx); return v; }
enum { SP = 64 };
SWEEP(c01_states, "c01_states", SD().size() * SP) {
    Enc &e = E[SD()[I / SP]]; size_t part = I % SP; auto el = tok_elems(e); size_t n = el.size(); Rng rng(mix(base_seed(), I));
    // Depth 4 where it is affordable (5 on thorough); one more element, sampled.
    int depth = e.stateful ? (thorough() && n <= 20 ? 5 : 4) : 3; uint64_t total = 1; for (int d = 0; d < depth; d++) total *= n;
    for (uint64_t k = part; k < total; k += SP) {
        bytes b; uint64_t r = k; for (int d = 0; d < depth; d++, r /= n) b += el[r % n];
        cmp(e, b);
        for (int j = e.stateful ? 4 : 1; j--;) { bytes c = b + el[rng((uint32_t)n)]; if (rng(2)) c += el[rng((uint32_t)n)]; cmp(e, c); }
    }
    sample(fmt("%s: sequences of %d of %zu fragments, part %zu", e.names[0].c_str(), depth, n, part)); label("sequences of fragments: " + e.id, total / SP);
}

// ------------------------------------------------------------- texts of all lengths up to 300 and around powers of two
SWEEP(c01_len, "c01_len", E.size() * 4) {
    Enc &e = E[I / 4]; uint64_t seed = mix(base_seed(), I); text t = long_text(e, e.rt, 140000, I % 4, seed); size_t total = 0;
    for (size_t n : edge_lengths()) {
        bytes b = ref_encode(e, text(t.begin(), t.begin() + n)); total += n;
        Result got = run(SUT, e, E[PIV], 0, b), want = run(REF, e, E[PIV], 0, b); evals(1); if (n) nontrivial(mix(seed, n));
        if (got != want) { size_t k = 0; while (k < got.out.size() && k < want.out.size() && got.out[k] == want.out[k]) k++; fail("decoding %zu characters (%s...) from %s: %zu characters, status %d, consumed %zu, flush %d; expected %zu characters, status %d, consumed %zu; the first difference is at character %zu", n, show(t, 4).c_str(), e.names[0].c_str(), got.out.size() / 4, got.status, got.consumed, got.flush, want.out.size() / 4, want.status, want.consumed, k / 4); }
    }
    label("characters in long texts", total); sample(fmt("%s: texts of 0 to 131073 characters like %s", e.names[0].c_str(), show(t, 4).c_str()));
}

// ------------------------------------------------------------- escapes of C99 and JAVA, whole value ranges
enum { EP = 32 };
SWEEP(c01_escapes, "c01_escapes", 2 * EP) {
    Enc &e = enc(I < EP ? "c99" : "java"); uint32_t part = I % EP; Rng rng(mix(base_seed(), I));
    auto hexd = [&](uint32_t v, int n) { bytes b; int style = rng(3); for (int i = n; i--;) { uint32_t d = v >> 4 * i & 15; b += d < 10 ? '0' + d : (style == 0 || (style == 2 && rng(2)) ? 'A' : 'a') + d - 10; } return b; };
    auto around = [&](const bytes &b) {
        cmp(e, b); switch (rng(5)) { case 0: cmp(e, b + "x"); break; case 1: cmp(e, b.substr(0, rng((uint32_t)b.size()))); break; case 2: cmp(e, "\\" + b); break;
        case 3: { bytes c = b; static const char odd[] = "/:@G`g\\ \n0\xff"; c[2 + rng((uint32_t)c.size() - 2)] = odd[rng(11)]; cmp(e, c); break; } default: cmp(e, b + b.substr(0, rng((uint32_t)b.size() + 1))); } };
    for (uint32_t u = part; u < 0x10000; u += EP) { around("\\u" + hexd(u, 4)); if (e.id == "c99") around("\\U" + hexd(u, 8)); }
    if (e.id == "c99") {
        for (uint32_t u = 0x10000 + part; u < 0x120000; u += EP * (thorough() ? 1 : 9)) around("\\U" + hexd(u, 8));
        for (int b = 0; b < 32; b++) for (int d = -2; d <= 2; d++) around("\\U" + hexd((1u << b) + d, 8));
        for (int k = 0; k < 2000; k++) around("\\U" + hexd((uint32_t)rng(0xFFFFFFFF), 8));
    } else for (uint32_t u = 0xD800 + part; u < 0xE000; u += EP) for (int k = 0; k < 64; k++) {
        uint32_t l = k == 0 ? 0xDC00 : k == 1 ? 0xDFFF : k == 2 ? 0xDBFF : k == 3 ? 0xE000 : k < 48 ? 0xDC00 + rng(0x400) : rng(0x10000);
        around("\\u" + hexd(u, 4) + (rng(30) ? "\\u" : "\\U") + hexd(l, 4));
    }
    sample(fmt("%s: escapes, part %u", e.names[0].c_str(), part)); label("escape values of " + e.id);
}

// ------------------------------------------------------------- UTF-7: every unit in every phase, with every padding and terminator
SWEEP(c01_utf7, "c01_utf7", 64) {
    Enc &e = enc("utf7"); Rng rng(mix(base_seed(), I)); static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    auto b64 = [&](const std::vector<uint32_t> &u, uint32_t pad) { bytes r = "+"; uint64_t acc = 0; int n = 0; for (uint32_t x : u) { acc = acc << 16 | x; n += 16; while (n >= 6) { r += A[acc >> (n - 6) & 63]; n -= 6; } } if (n) r += A[(acc << (6 - n) & 63) | (pad & ((1 << (6 - n)) - 1))]; return r; };
    static const bytes term[] = {"", "-", "-x", " ", "x", "!", "~", "\\", "\x80"_b, "--", "-+", "-+-", "+", "A", "AA", "=", "\n", "-+AGE-", ".", "/"};
    for (uint32_t u = (uint32_t)I * 1024; u < (uint32_t)(I + 1) * 1024; u++) for (int ph = 0; ph < 3; ph++) {
        std::vector<uint32_t> v; for (int k = 0; k < ph; k++) v.push_back(rng(4) ? 0x4E00 + rng(0x5000) : 'a'); v.push_back(u);
        if (u >= 0xD800 && u < 0xDC00 && rng(4)) v.push_back(rng(8) ? 0xDC00 + rng(0x400) : rng(0x10000));
        for (int k = 0; k < 5; k++) cmp(e, (rng(4) ? "" : "a") + b64(v, rng(2) ? 0 : rng(64)) + term[rng(20)]);
        if (u % 8 == 0) for (uint32_t pad = 0; pad < 16; pad++) cmp(e, b64(v, pad) + term[rng(20)]);
    }
    sample(fmt("UTF-7: units %04zX.. in three phases", I * 1024)); label("UTF-7 units x phases", 3072);
}
