// C04: a direct conversion equals decoding to Unicode and encoding the code points, for every ordered pair of encodings.
#include "common.hpp"
using namespace vp;

static void pairwise(Enc &f, Enc &t, int flags, const bytes &in) {
    Result d = run(SUT, f, t, flags, in);
    Result a = run(SUT, f, E[PIV], flags, in);
    Result b = run(SUT, E[PIV], t, flags, a.out, a.status == 0);
    auto bad = [&](const char *why) { fail("%s, flags %d, input %s: %s: direct conversion gives %s; decoding gives %s and encoding that gives %s", pairname(f, t).c_str(), flags, hex(in).c_str(), why, show(d).c_str(), show(a).c_str(), show(b).c_str()); };
    if (a.flush > 0) bad("decoding to Unicode failed at the end of the text");
    if (d.out != b.out) bad("different output");
    if (b.status == 0) {
        if (d.status != a.status || d.consumed != a.consumed) bad("different outcome");
        if (a.status == 0 && (d.flush != b.flush || d.count != a.count + b.count)) bad("different end of text or count of substitutions");
    } else {
        if (b.status != EILSEQ) bad("encoding whole code points reported incomplete input");
        // The first character that the target lacks: either in the text, or held back by the decoder until the end.
        if (d.status == EILSEQ) {
            if (d.consumed > a.consumed) bad("consumed more than the decoder accepts");
        } else if (!(f.composing && (d.status == 0 ? d.flush == EILSEQ : false))) bad("different outcome");
    }
    // and the reference agrees
    Result r = run(REF, f, t, flags, in);
    if (d != r) fail("%s, flags %d, input %s: got %s, expected %s", pairname(f, t).c_str(), flags, hex(in).c_str(), show(d).c_str(), show(r).c_str());
    evals(1);
    label(flags ? "discard" : "no flags"); if (a.status) label("malformed input"); if (b.status || b.count) label("characters the target lacks");
    if (in.size() > 1 && &f != &t) nontrivial(hash_str(in, mix(f.idx, t.idx)));
}

static bytes input_for(Src &S, Enc &f, Enc &t) {
    switch (S.draw(5)) {
    case 0: { // text that both have
        text x = gen_text(S, S.draw(2) ? f : t, 24), y; for (uint32_t c : x) if (f.rep.has(c) && t.rep.has(c)) y.push_back(c);
        return ref_encode(f, y, S.draw(2)); }
    case 1: { text x = gen_text(S, t, 12), y = gen_text(S, f, 12); x.insert(x.end(), y.begin(), y.end()); return ref_encode(f, x); }
    case 2: return gen_valid(S, f, 30);
    default: return gen_bytes(S, f, 30);
    }
}
SWEEP(c04_all, "c04_all", E.size() * E.size()) {
    Enc &f = E[I / E.size()], &t = E[I % E.size()];
    int K = thorough() ? 3000 : 160;
    for (int k = 0; k < K; k++) {
        Src S; S.st = mix(mix(base_seed(), I), k);
        bytes in = input_for(S, f, t);
        if (k == 0) in = ref_encode(f, {'a', 'Z', '5', ' '});
        if (k == 1) { text x; for (uint32_t c = 0x20; c < 0x7F; c++) x.push_back(c); for (auto r : f.reprs) x.push_back(r); in = ref_encode(f, x); }
        if (k == 2) in = amplify(S, in.empty() ? ref_encode(f, {'a', 'b'}) : in, 9000);
        pairwise(f, t, k & 1, in);
        if (k == 3) sample(pairname(f, t) + " " + hex(in));
    }
    if (f.sut == t.sut) label("same encoding");
}
CASE(c04_rand, "c04_rand") {
    Enc &f = gen_enc(S), &t = gen_enc(S); int flags = S.draw(2); bytes in = input_for(S, f, t);
    if (S.flip(1, 300)) in = amplify(S, in, 70000);
    sample(pairname(f, t) + " " + hex(in));
    pairwise(f, t, flags, in); evals((uint64_t)-1);
}

// Every pair over the whole repertoire of its source (the BMP and a sample of the other planes for full-Unicode sources on quick), in
// chunks, dropping what the target lacks; and over the common characters without dropping.
SWEEP(c04_rep, "c04_rep", E.size() * E.size()) {
    Enc &f = E[I / E.size()], &t = E[I % E.size()]; Rng rng(mix(base_seed(), I)); Rng one(mix(base_seed(), f.idx));
    static std::vector<uint32_t> list; static int have = -1; if (have != f.idx) { list = rep_list(f, one, 3, 301); have = f.idx; }
    uint32_t len = 200 + rng(200);
    for (int strict = 0; strict < 2; strict++) {
        text x; auto go = [&] {
            if (x.empty()) return; bytes in = ref_encode(f, x);
            Result d = run(SUT, f, t, !strict, in), a = run(SUT, f, E[PIV], !strict, in), b = run(SUT, E[PIV], t, !strict, a.out);
            if (d.out != b.out || d.status != a.status || d.consumed != a.consumed || d.count != a.count + b.count || d.flush != b.flush || a.status || b.status) {
                for (size_t k = 0; k < x.size(); k++) { pairwise(f, t, !strict, ref_encode(f, {x[k]})); if (k) pairwise(f, t, !strict, ref_encode(f, {x[k - 1], x[k]})); }
                for (size_t n = 1; n <= x.size(); n++) pairwise(f, t, !strict, ref_encode(f, text(x.begin(), x.begin() + n)));
            }
            // A single character of the chunk, from the initial state.
            pairwise(f, t, rng(2), ref_encode(f, {x[rng((uint32_t)x.size())]}));
            evals(x.size()); label(strict ? "common characters" : "characters of the source", x.size()); x.clear();
        };
        for (uint32_t c : list) { if (strict && !t.rep.has(c)) continue; x.push_back(c); if (x.size() >= len) go(); }
        go();
    }
    sample(pairname(f, t) + " over the repertoire");
}
