// C08: characters the target lacks become U+FFFD and are counted, or stop the conversion; tags vanish.
// Oracle: a model over the frozen repertoires: the text with replacements made by the model must convert to the same bytes.
#include "common.hpp"
using namespace vp;
static bool tag(uint32_t c) { return c >> 7 == 0xE0000 >> 7; }

struct Model { text kept; size_t count = 0; bool stops = false; size_t at = 0; };
static Model model(const Enc &t, const text &x) {
    Model m;
    for (size_t i = 0; i < x.size(); i++) {
        uint32_t c = x[i];
        if (t.has(m.kept, c)) m.kept.push_back(c);
        else if (tag(c)) continue;
        else if (t.has_fffd) { m.kept.push_back(0xFFFD); m.count++; }
        else { m.stops = true; m.at = i; break; }
    }
    return m;
}
static void judge(Enc &f, Enc &t, const text &x) {
    Model m = model(t, x);
    bytes in = run(REF, E[PIV], f, 0, pack(x)).out;
    Result got = run(SUT, f, t, 0, in);
    Result ref = run(SUT, E[PIV], t, 0, pack(m.kept), !m.stops); // only characters the target has
    auto bad = [&](const char *why) { fail("%s, text %s: %s: got %s; the text with the model's replacements, %s, converts to %s, %zu substitutions expected%s", pairname(f, t).c_str(), show(x).c_str(), why, show(got).c_str(), show(m.kept).c_str(), show(ref).c_str(), m.count, m.stops ? fmt(", stop at character %zu", m.at).c_str() : ""); };
    if (ref.status || ref.count || ref.flush > 0) bad("characters that the target has are rejected or counted as substituted");
    if (m.stops) {
        if (got.status != EILSEQ) bad("a character that the target lacks did not stop the conversion");
        if (got.out != ref.out) bad("wrong output before the character that the target lacks");
        size_t off = run(REF, E[PIV], f, 0, pack(text(x.begin(), x.begin() + m.at)), false).out.size();
        if (!f.stateful && !f.composing && !f.bom && got.consumed != off) bad(fmt("stopped at byte %zu instead of %zu", got.consumed, off).c_str());
    } else {
        if (got.status || got.flush) bad("the conversion failed");
        if (got.out != ref.out) bad("wrong output");
        if (got.count != m.count) bad("wrong count");
    }
    evals(1); if (m.count || m.stops || m.kept.size() != x.size()) nontrivial(hash_str(pack(x), mix(f.idx, t.idx)));
    label(m.stops ? "stops" : m.count ? "substitutes" : m.kept.size() < x.size() ? "drops tags" : "representable");
}
static Enc &source(Src &S) { static const char *n[] = {"ucs4internal", "utf8", "utf16be", "utf16le", "utf32be", "utf16", "utf32", "ucs4le", "gb18030_2022", "gb18030_2005", "utf7"}; return enc(n[S.draw(11)]); }

// Every code point that a target lacks.
SWEEP(c08_all, "c08_all", E.size() * 17) {
    Enc &t = E[I % E.size()]; uint32_t plane = (uint32_t)(I / E.size()); Rng rng(mix(base_seed(), I));
    uint32_t step = plane == 0 || thorough() ? 1 : plane == 14 ? 1 : plane == 2 ? 3 : 7;
    for (uint32_t c = plane << 16; c < (plane + 1) << 16; c += step) {
        if (c == (plane << 16) && step > 1) c += rng(step);
        if ((c >= 0xD800 && c < 0xE000) || t.rep.has(c)) continue;
        Result g = run(SUT, E[PIV], t, 0, pack({c}));
        if (tag(c)) { if (g.status || g.count || g.out.size() || g.flush) fail("tag character U+%04X to %s gives %s, expected nothing", c, t.names[0].c_str(), show(g).c_str()); }
        else if (t.has_fffd) { static bytes want; static int wi = -1; if (wi != t.idx) { want = ref_encode(t, {0xFFFD}); wi = t.idx; } if (g.status || g.count != 1 || g.out != want || g.flush) fail("U+%04X to %s, which lacks it, gives %s, expected U+FFFD (%s) and count 1", c, t.names[0].c_str(), show(g).c_str(), hex(want).c_str()); }
        else if (g.status != EILSEQ || g.consumed || g.out.size()) fail("U+%04X to %s, which lacks it and U+FFFD, gives %s, expected an illegal-sequence error at the start", c, t.names[0].c_str(), show(g).c_str());
        evals(1); if (rng(8) == 0) nontrivial(mix(c, t.idx));
    }
    label(t.has_fffd ? "targets with U+FFFD" : "targets without U+FFFD");
    sample(fmt("%s: every code point of plane %u it lacks", t.names[0].c_str(), plane));
}
CASE(c08_text, "c08_text") {
    Enc &f = source(S);
    static std::vector<int> sub; if (sub.empty()) for (auto &e : E) if (e.has_fffd && e.rep.n < 1112064) sub.push_back(e.idx);
    Enc &t = S.draw(3) == 0 ? E[sub[S.draw((uint32_t)sub.size())]] : gen_enc(S);
    text x; bool safe = S.draw(2);
    text raw = S.draw(2) ? gen_any(S, t, 30) : gen_text(S, t, 20);
    if (S.draw(3) == 0) for (size_t k = 0, n = 1 + S.draw(3); k < n; k++) raw.insert(raw.begin() + S.draw((uint32_t)raw.size() + 1), 0xE0000 + S.draw(0x80));
    for (auto c : raw) if (f.rt.has(c) && c != 0xFEFF && c != 0xFFFE && !(c >= 0xD800 && c < 0xE000)) { if (safe && !t.rep.has(c) && !tag(c) && !t.has_fffd) continue; x.push_back(c); }
    if (S.flip(1, 300)) x = amplify(S, x, 9000);
    sample(pairname(f, t) + " " + show(x));
    judge(f, t, x); evals((uint64_t)-1);
}
// The same through small output buffers: substitution and counting must not depend on the room (each call that succeeds reports its count).
CASE(c08_room, "c08_room") {
    Enc &f = source(S); static std::vector<int> sub; if (sub.empty()) for (auto &e : E) if (e.has_fffd && e.rep.n < 1112064) sub.push_back(e.idx);
    Enc &t = S.draw(2) ? E[sub[S.draw((uint32_t)sub.size())]] : gen_enc(S);
    text x; for (auto c : gen_any(S, t, 12)) if (f.rt.has(c) && c != 0xFEFF && c != 0xFFFE) x.push_back(c);
    Model m = model(t, x); bytes in = ref_encode(f, x);
    bytes want = run(SUT, E[PIV], t, 0, pack(m.kept), false).out;
    bytes out; size_t count = 0, pos = 0; bool stopped = false; Cd cd(SUT, f, t, 0); size_t room = S.draw(6); size_t extra = 0;
    // one character at a time, so that every successful call reports its own count
    for (size_t i = 0; i < x.size() && !stopped; i++) {
        size_t end = run(REF, E[PIV], f, 0, pack(text(x.begin(), x.begin() + i + 1)), false).out.size();
        if (f.stateful) end = in.size();
        for (;;) {
            Call c = call(SUT, cd, in.data() + pos, end - pos, room + extra); out += c.out; pos += c.used;
            if (c.ret != (size_t)-1) { count += c.ret; extra = 0; break; }
            if (c.err == EILSEQ) { stopped = true; break; }
            if (c.err == EINVAL) { break; }
            extra++; if (extra > 40) fail("%s: full buffer with %zu bytes of room", pairname(f, t).c_str(), room + extra);
            if (f.stateful) { count = 0; if (c.used) extra = extra > 4 ? extra : 4; }
        }
        if (f.stateful) break;
    }
    if (out != want || stopped != m.stops) fail("%s, text %s, %zu bytes of room: output %s%s; expected %s%s", pairname(f, t).c_str(), show(x).c_str(), room, hex(out).c_str(), stopped ? " then illegal sequence" : "", hex(want).c_str(), m.stops ? " then illegal sequence" : "");
    if (!f.stateful && !stopped && count != m.count) fail("%s, text %s, %zu bytes of room: %zu substitutions counted, %zu expected", pairname(f, t).c_str(), show(x).c_str(), room, count, m.count);
    if (m.count || m.stops) nontrivial(hash_str(pack(x), mix(f.idx, t.idx)));
    label(m.stops ? "stops" : m.count ? "substitutes" : "representable");
    sample(pairname(f, t) + fmt(" room %zu ", room) + show(x));
}
// A held-back last character that the target lacks is handled like any other at the reset.
CASE(c08_pending, "c08_pending") {
    static const char *n[] = {"cp1255", "cp1258", "tcvn", "big5hkscs1999", "big5hkscs2001", "big5hkscs2004", "big5hkscs2008", "euc_jisx0213", "shift_jisx0213", "iso2022_jp3"};
    Enc &f = enc(n[S.draw(10)]), &t = gen_enc(S); int flags = S.draw(2);
    text x = gen_text(S, f, 3); if (!f.combos.empty()) { auto &c = S.pick(f.combos); x.insert(x.end(), c.begin(), c.end()); }
    if (S.draw(2)) { // end in a character that the decoder holds back
        static const uint32_t hold[] = {0x5D0, 0x5E9, 0x5D9, 0x61, 0xE2, 0x1A1, 0xCA, 0xEA, 0x304B, 0x30AB, 0x2E5, 0x2E9, 0xE6, 0x254, 0x25A};
        uint32_t c = hold[S.draw(15)]; if (f.rep.has(c)) x.push_back(c);
    }
    bytes in = ref_encode(f, x); if (run(REF, f, E[PIV], 0, in).status) return; /* a control character that starts a shift sequence */ text dec = unpack(run(SUT, f, E[PIV], 0, in).out);
    Result got = run(SUT, f, t, flags, in);
    Model m; if (!flags) m = model(t, dec); else for (auto c : dec) if (t.has(m.kept, c)) m.kept.push_back(c); else if (!tag(c)) m.count++;
    Result ref = run(SUT, E[PIV], t, flags, pack(m.kept), !m.stops);
    bool failed = got.status == EILSEQ || got.flush == EILSEQ;
    if (failed != m.stops || (got.out != ref.out) || (!failed && got.count != m.count)) fail("%s, flags %d, input %s (text %s): got %s, expected %s, %zu substitutions%s", pairname(f, t).c_str(), flags, hex(in).c_str(), show(dec).c_str(), show(got).c_str(), hex(ref.out).c_str(), m.count, m.stops ? ", failing" : "");
    if (got.flush == EILSEQ) { // the character stays where it is: the reset fails again, until the state is forgotten
        Cd a(SUT, f, t, flags); call(SUT, a, in.data(), in.size(), 1000); Call x1 = call(SUT, a, nullptr, 0, 100, true), x2 = call(SUT, a, nullptr, 0, 100, true);
        if (x1.ret != (size_t)-1 || x1.err != EILSEQ || x2.ret != (size_t)-1 || x2.err != EILSEQ || x1.out.size() || x2.out.size()) fail("%s, flags %d, input %s (text %s): the last character, which the target lacks, is held back; two resets return %zd (error %d) and %zd (error %d), expected illegal-sequence errors", pairname(f, t).c_str(), flags, hex(in).c_str(), show(dec).c_str(), (ssize_t)x1.ret, x1.err, (ssize_t)x2.ret, x2.err);
    }
    if (m.count || m.stops) nontrivial(hash_str(in, mix(f.idx, t.idx))); label(m.stops ? "stops" : m.count ? "substitutes or drops" : "representable");
    sample(pairname(f, t) + " " + show(dec));
}

// Values beyond Unicode, which the UCS-4 forms can carry, are characters that (nearly) every target lacks.
SWEEP(c08_beyond, "c08_beyond", E.size()) {
    Enc &t = E[I]; Rng rng(mix(base_seed(), I)); std::vector<uint32_t> v; for (int b = 21; b < 31; b++) for (int d = -2; d <= 2; d++) v.push_back((1u << b) + d); for (uint32_t x : {0x110000u, 0x110001u, 0x10E0001u, 0x1E0020u, 0x7FFFFFFFu, 0x7FFFFFFEu, 0xD800u, 0xDBFFu, 0xDC00u, 0xDFFFu}) v.push_back(x); for (int k = 0; k < 200; k++) v.push_back(0x110000 + rng(0x7FEEFFFF));
    for (uint32_t c : v) for (const char *fn : {"ucs4", "ucs4be", "ucs4le", "ucs4internal", "ucs4swapped"}) {
        Enc &f = enc(fn); bytes in; auto put = [&](uint32_t x) { bytes b{(char)(x >> 24), (char)(x >> 16), (char)(x >> 8), (char)x}; if (f.id == "ucs4le" || f.id == "ucs4internal") std::reverse(b.begin(), b.end()); in += b; };
        int kind = rng(3); if (kind) put('a'); put(c); if (kind == 2) put('b');
        for (int fl = 0; fl < 2; fl++) { Result g = run(SUT, f, t, fl, in), w = run(REF, f, t, fl, in); if (g != w) fail("%s, flags %d, input %s: got %s, expected %s", pairname(f, t).c_str(), fl, hex(in).c_str(), show(g).c_str(), show(w).c_str()); evals(1); nontrivial(hash_str(in, mix(I, fl))); }
    }
    sample(t.names[0] + ": values beyond Unicode and surrogates in the UCS-4 forms");
}

// Very many characters that the target lacks: every one is counted.
SWEEP(c08_long, "c08_long", E.size() * 2) {
    Enc &t = E[I / 2]; Enc &f = I % 2 ? E[PIV] : enc("utf8"); Rng rng(mix(base_seed(), I)); text pool, has{'a'}; for (uint32_t r : t.reprs) has.push_back(r); for (int k = 0; k < 4000 && pool.size() < 6; k++) { uint32_t c = rng(2) ? rng(0x10000) : rng(0x110000); if ((c < 0xD800 || c > 0xDFFF) && !tag(c) && c != 0xFEFF && c != 0xFFFE && c && !t.rep.has(c)) pool.push_back(c); } if (pool.empty() || !t.has_fffd) { if (pool.empty()) return; }
    for (size_t n : {127u, 128u, 255u, 256u, 257u, 1000u, 32767u, 32768u, 65535u, 65536u, 65537u, 100000u, 131073u}) {
        text x, k; size_t count = 0; bool plain = rng(2); while (count < n) { if (!plain && rng(3) == 0) { uint32_t c = has[rng((uint32_t)has.size())]; x.push_back(c); if (t.rep.has(c)) k.push_back(c); else { x.pop_back(); } continue; } if (!plain && rng(9) == 0) { uint32_t c = 0xE0020 + rng(0x5F); x.push_back(c); if (t.rep.has(c)) k.push_back(c); continue; } x.push_back(pool[rng((uint32_t)pool.size())]); if (t.has_fffd) k.push_back(0xFFFD); count++; }
        int fl = t.has_fffd ? 0 : 1; bytes in = f.idx == PIV ? pack(x) : run(REF, E[PIV], f, 0, pack(x)).out; Result g = run(SUT, f, t, fl, in), w = run(REF, E[PIV], t, 0, pack(k));
        if (g.status || g.flush || g.count != count || g.out != w.out) fail("%s, flags %d, %zu characters (%s...), %zu of them lacking: count %zu, %zu bytes of output, status %d; expected %zu bytes", pairname(f, t).c_str(), fl, x.size(), show(x, 4).c_str(), count, g.count, g.out.size(), g.status, w.out.size());
        evals(1); nontrivial(hash_str(in, I)); label("lacking characters", count);
    }
    sample(pairname(f, t) + " up to 131073 lacking characters");
}
