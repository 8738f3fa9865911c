// C23: inputs and outputs of several gigabytes. Oracle: the reference on the same text with few repetitions, extrapolated linearly
// (after checking that it is linear), so that every count, position and error of the large conversion is known exactly.
#include "stream.hpp"
#include <cppp/reiconv.h>
#include <cppp/reiconv.hpp>
#include <sys/mman.h>
#include <unistd.h>
#include <semaphore.h>
using namespace vp;
typedef unsigned long long ull;
static const size_t PG = 4096;
// head + unit * n + tail in the address space, the middle mapped again and again from one small block of memory.
struct Big {
    char *m = nullptr; size_t msz = 0; char *p = nullptr; size_t n = 0;
    char *mid = nullptr; size_t win = 0, wins = 0; // the repeated part
    ~Big() { if (m) munmap(m, msz); }
    void make(const bytes &head, const bytes &unit, size_t reps, const bytes &tail, size_t slack, bool fill) {
        size_t u = unit.size(), total = u * reps; win = u ? u * PG : PG; while (win < (4u << 20)) win *= 2; wins = u ? total / win : 0; size_t rest = total - wins * win;
        size_t h = (head.size() + PG) / PG * PG, t = (rest + tail.size() + slack + PG) / PG * PG; n = head.size() + total + tail.size(); msz = h + wins * win + t + PG;
        m = (char *)mmap(nullptr, msz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) { m = nullptr; fail("harness: cannot reserve %zu bytes", msz); }
        mid = m + h; p = mid - head.size(); memcpy(p, head.data(), head.size());
        if (wins) { int fd = memfd_create("vp", 0); if (fd < 0 || ftruncate(fd, win)) fail("harness: memfd"); for (size_t i = 0; i < wins; i++) if (mmap(mid + i * win, win, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { ::close(fd); fail("harness: mmap"); } ::close(fd); if (fill) for (size_t i = 0; i < win; i += u) memcpy(mid + i, unit.data(), u); }
        char *q = mid + wins * win; if (fill) { for (size_t i = 0; i < rest; i += u) memcpy(q + i, unit.data(), u); memcpy(q + rest, tail.data(), tail.size()); }
        mprotect(m + msz - PG, PG, PROT_NONE);
    }
};
// At most two conversions at a time hold gigabytes of real memory.
static sem_t *big_sem = [] { sem_t *s = (sem_t *)mmap(nullptr, sizeof(sem_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sem_init(s, 1, 2); return s; }();
struct Heavy { Heavy() { timespec t; clock_gettime(CLOCK_REALTIME, &t); t.tv_sec += 150; sem_timedwait(big_sem, &t); } ~Heavy() { sem_post(big_sem); } };
enum { STREAM, FULL, SIZE, STATIC, ALLOC, CXX, NK };
static const char *KN[] = {"one call", "one call with too little room", "size prediction", "fixed-size conversion", "allocating conversion", "C++ conversion"};
struct Spec { Enc *f, *t; int fl; bytes head, unit, tail; size_t reps; int kind; size_t less; };
struct Out { long long ret; int err; size_t used; bytes out; int flush; };
static bytes assemble(const Spec &s, size_t n) { bytes b = s.head; for (size_t i = 0; i < n; i++) b += s.unit; return b + s.tail; }
static Out small(const Spec &s, size_t n) { // the reference with n repetitions
    bytes in = assemble(s, n); Out o{}; Cd cd(REF, *s.f, *s.t, s.fl); Call c = call(REF, cd, in.data(), in.size(), ample(in.size()));
    if (s.kind == FULL) { size_t need = c.out.size(), cap = need - std::min(need, s.less); Cd d(REF, *s.f, *s.t, s.fl); c = call(REF, d, in.data(), in.size(), cap); return {(long long)c.ret, c.err, c.used, c.out, 0}; }
    o = {(long long)c.ret, c.err, c.used, c.out, 0}; if (c.ret != (size_t)-1) { Call r = call(REF, cd, nullptr, 0, 64, true); o.out += r.out; o.flush = r.ret == (size_t)-1 ? r.err : 0; if (r.ret != (size_t)-1) o.ret += r.ret; } return o;
}
// Checks that the result is linear in the number of repetitions; gives what one repetition adds.
static bool linear(const Spec &s, bytes &A, bytes &B, bytes &C, long long &cnt, Out &base) {
    const size_t K = 8; Out a = small(s, K), b = small(s, K + 1), c = small(s, K + 2); if (a.err != b.err || b.err != c.err || a.flush != b.flush || b.flush != c.flush) return false;
    size_t u = s.unit.size(); long long db = (long long)b.out.size() - (long long)a.out.size(); if (db < 0 || (long long)c.out.size() - (long long)b.out.size() != db || b.used - a.used != u || c.used - b.used != u) return false;
    cnt = a.err ? 0 : b.ret - a.ret; if (!a.err && c.ret - b.ret != cnt) return false;
    // out = A + B * repetitions + C, with A and C at most four repetitions long (plus what head and tail give)
    size_t d = (size_t)db; if (d == 0) { if (a.out != b.out) return false; A = a.out; B.clear(); C.clear(); base = a; return true; }
    for (size_t h = 0; h + 2 * d <= a.out.size() && h <= 4 * d + 200; h++) {
        bytes w = b.out.substr(h, d); if (a.out.substr(0, h) + w + a.out.substr(h) == b.out && b.out.substr(0, h) + w + b.out.substr(h) == c.out && a.out.substr(h, d) == w) {
            size_t e = h; while (e + d <= a.out.size() && a.out.compare(e, d, w) == 0) e += d; A = a.out.substr(0, h); B = w; C = a.out.substr(h); base = a; return true; }
    }
    return false;
}
static bool at(const char *p, const bytes &w) { return memcmp(p, w.data(), w.size()) == 0; }
// False when the case does not fit the scheme (not linear, too long for this tier).
static bool go(Spec s, double budget) {
    const size_t K = 8; bytes A, B, C; long long cnt; Out base; if (s.unit.empty() || !linear(s, A, B, C, cnt, base)) return false;
    size_t more = s.reps - K; double work = B.empty() && !s.fl ? (double)s.reps * s.unit.size() / 8 : (double)s.reps * std::max<double>(s.unit.size() / 4.0, 1); if (work > budget) return false;
    std::string what = fmt("%s, %s%s, input %s + %s * %zu + %s (%.3f GiB)", KN[s.kind], pairname(*s.f, *s.t).c_str(), s.fl ? ", discarding" : "", hex(s.head, 20).c_str(), hex(s.unit, 40).c_str(), s.reps, hex(s.tail, 20).c_str(), (double)(s.head.size() + s.unit.size() * s.reps + s.tail.size()) / (1ull << 30));
    Big in; in.make(s.head, s.unit, s.reps, s.tail, 0, true); evals(1);
    size_t outn = base.out.size() + more * B.size(), used = base.used + more * s.unit.size(); bool ok = base.err == 0 && base.flush == 0;
    if (s.kind >= ALLOC && outn > 4700000000ull) return false;
    // The expected output: A + B * more + C; mapped the same way.
    auto verify = [&](const char *o, const Big *w, const char *call) {
        if (!at(o, A)) fail("%s: %s: the output starts with %s, expected %s", what.c_str(), call, hex(bytes(o, A.size())).c_str(), hex(A).c_str());
        if (!at(o + outn - C.size(), C)) fail("%s: %s: the output ends with %s, expected %s", what.c_str(), call, hex(bytes(o + outn - C.size(), C.size())).c_str(), hex(C).c_str());
        if (!B.empty()) { size_t lim = more * B.size(); auto cmp = [&](size_t from, size_t to) { for (size_t i = from; i + B.size() <= to; i += B.size()) if (memcmp(o + A.size() + i, B.data(), B.size())) fail("%s: %s: at offset %zu the output has %s, expected %s", what.c_str(), call, A.size() + i, hex(bytes(o + A.size() + i, B.size())).c_str(), hex(B).c_str()); }; if (w && w->wins) { cmp(0, w->win); cmp(w->wins * w->win, lim); } else cmp(0, lim); }
    };
    Cd cd(SUT, *s.f, *s.t, s.fl);
    if (s.kind == STREAM || s.kind == FULL) {
        Big ob; size_t slack = 64; ob.make(A, B, more, C, slack, false);
        // For FULL the room is that of the full output less a little; the reference says how far that reaches.
        Spec t = s; t.kind = STREAM; size_t cap = s.kind == STREAM ? outn + slack : 0; if (s.kind == FULL) { bytes x = assemble(s, K); Cd r(REF, *s.f, *s.t, s.fl); size_t need = call(REF, r, x.data(), x.size(), ample(x.size())).out.size(); cap = need - std::min(need, s.less) + more * B.size(); }
        if (cap > ob.n + slack) { return false; } // (room beyond what is mapped)
        char *ip = in.p, *op = ob.p; size_t il = in.n, ol = cap; errno = 0; size_t r = SUT.iconv(cd, &ip, &il, &op, &ol); int e = r == (size_t)-1 ? errno : 0; evals(1);
        size_t fn = 0; long long total = (long long)r; int fe = 0;
        if ((size_t)(ip - in.p) != used || il != in.n - used) fail("%s: consumes %zd bytes (count says %zd), expected %zu", what.c_str(), (ssize_t)(ip - in.p), (ssize_t)(in.n - il), used);
        if (e != base.err) fail("%s: reports error %d, expected %d", what.c_str(), e, base.err);
        if ((size_t)(op - ob.p) != cap - ol) fail("%s: the output pointer moves by %zd, the count by %zd", what.c_str(), (ssize_t)(op - ob.p), (ssize_t)(cap - ol));
        if (s.kind == STREAM && !e) { size_t l2 = ol; size_t q = SUT.iconv(cd, nullptr, nullptr, &op, &ol); fe = q == (size_t)-1 ? errno : 0; fn = l2 - ol; if (!fe) total += q; if (fe != base.flush) fail("%s: the reset reports %d, expected %d", what.c_str(), fe, base.flush); }
        if ((size_t)(op - ob.p) != outn) fail("%s: writes %zd bytes, expected %zu", what.c_str(), (ssize_t)(op - ob.p), outn);
        if (!e && !fe && s.kind == STREAM && total != base.ret + (long long)more * cnt) fail("%s: returns the count %lld, expected %lld", what.c_str(), total, base.ret + (long long)more * cnt);
        verify(ob.p, &ob, "conversion");
    } else if (s.kind == SIZE) {
        errno = 0; size_t r = SUT.result_size(cd, in.p, in.n); evals(1); if (ok ? r != outn : r != (size_t)-1) fail("%s: gives %zd, expected %zd", what.c_str(), (ssize_t)r, ok ? (ssize_t)outn : -1);
    } else if (s.kind == STATIC) {
        if (!ok && base.err != EILSEQ) return false; Big ob; ob.make(A, B, more, C, 64, false); size_t cap = outn + 32 - std::min<size_t>(s.less, outn + 32); errno = 0; int r = SUT.static_size(cd, in.p, in.n, ob.p, cap); int e = errno; evals(1); bool want = ok && cap >= outn;
        if ((r == 0) != want) fail("%s into %zu bytes: %s, expected %s", what.c_str(), cap, r ? fmt("fails with %d", e).c_str() : "succeeds", want ? "success" : "failure"); if (ok && !want && e != E2BIG) fail("%s into %zu bytes: error %d instead of E2BIG", what.c_str(), cap, e); if (want) verify(ob.p, &ob, "conversion");
    } else if (s.kind == ALLOC) {
        Heavy hv; char *p = nullptr; size_t n = 0; errno = 0; int r = SUT.convert(cd, in.p, in.n, &p, &n); evals(1); if (r && errno == ENOMEM) { free(p); label("no memory"); return false; } if ((r == 0) != ok) fail("%s: %s, expected %s", what.c_str(), r ? "fails" : "succeeds", ok ? "success" : "failure"); if (ok) { if (n != outn) { fail("%s: gives %zu bytes, expected %zu", what.c_str(), n, outn); } verify(p, nullptr, "conversion"); } free(p);
    } else {
        Heavy hv; bytes o; bool th = false; try { o = reiconv::convert((reiconv::Encodings)s.f->sut, (reiconv::Encodings)s.t->sut, std::string_view(in.p, in.n), (reiconv::ConvertFlag)s.fl); } catch (std::bad_alloc &) { label("no memory"); return false; } catch (std::system_error &x) { if (x.code().value() == ENOMEM) return false; th = true; } evals(1); if (th == ok) fail("%s: %s", what.c_str(), th ? "throws" : "returns although it cannot convert"); if (ok) { if (o.size() != outn) fail("%s: gives %zu bytes, expected %zu", what.c_str(), o.size(), outn); verify(o.data(), nullptr, "conversion"); }
    }
    label(KN[s.kind]); label(B.empty() ? "no output" : "output"); if (in.n >> 31) label(in.n >> 32 ? "input over 4 GiB" : "input over 2 GiB"); if (outn >> 31) label(outn >> 32 ? "output over 4 GiB" : "output over 2 GiB"); if ((in.n >> 30) || (outn >> 30)) nontrivial(hash_str(s.unit, hash_str(s.head + s.tail, mix(s.f->idx * 256 + s.t->idx, s.kind * 1000003 + s.reps)))); sample(what); return true;
}
static size_t reps_for(size_t boundary, size_t per, int off) { return per ? boundary / per + off : boundary / 4; }
static const size_t G1 = 1ull << 30, G2 = 1ull << 31, G4 = 1ull << 32;
// Units that decode to nothing: runs of shifts, marks and tags.
static std::vector<std::pair<const char *, bytes>> &RUNS() {
    static std::vector<std::pair<const char *, bytes>> v; if (v.empty()) { v = {
        {"hz", "~{~}"}, {"hz", "~\n"}, {"iso2022_jp", "\x1b$B\x1b(B"}, {"iso2022_jp", "\x1b(J\x1b(B"}, {"iso2022_jp1", "\x1b$(D\x1b(B"}, {"iso2022_jp2", "\x1b.A\x1b$B\x1b(B"}, {"iso2022_jp3", "\x1b$(O\x1b(B"}, {"iso2022_jpms", "\x1b$B\x1b(I\x1b(B"},
        {"iso2022_kr", "\x1b$)C\x0e\x0f"}, {"iso2022_cn", "\x1b$)A\x0e\x0f"}, {"iso2022_cn_ext", "\x1b$)A\x1b$*H\x0e\x0f"}, {"utf16", "\xfe\xff"}, {"utf32", bytes("\0\0\xfe\xff", 4)}, {"ucs2", "\xfe\xff"}, {"ucs4", bytes("\0\0\xfe\xff", 4)}, {"utf8", "\xef\xbb\xbf"}}; } return v;
}
static Enc *find(const char *id) { for (auto &e : E) if (e.id == id) return &e; return nullptr; }
static void one(Spec s, double budget, const char *why) { if (!go(s, budget)) label(why); }
// Fixed list: each function and each boundary with typical texts.
struct Fix { const char *f, *t; bytes unit, tail; int kind; int fl; size_t in_or_out; size_t boundary; int off; };
static std::vector<Fix> &FX() {
    static std::vector<Fix> v; if (!v.empty()) return v; const bytes e9 = "\xe9", cjk8 = "\xe4\xb8\xad\xe6\x96\x87", asc = "abcdefgh";
    v = {
        {"utf8", "ucs4le", cjk8, "", STREAM, 0, 1, G4, 1}, {"utf8", "utf32", cjk8, "", SIZE, 0, 1, G4, 5}, {"ucs4le", "utf8", bytes("\x2d\x4e\0\0\x87\x65\0\0", 8), "", STREAM, 0, 0, G4, 3},
        {"iso8859_1", "ucs4be", e9, "", SIZE, 0, 1, G4, 2}, {"iso8859_1", "ucs4be", e9, "", STATIC, 0, 1, G4, 1}, {"utf16le", "utf8", bytes("\x2d\x4e\x87\x65", 4), "", STREAM, 0, 0, G2, 3}, {"utf16le", "utf8", bytes("\x2d\x4e\x87\x65", 4), "", SIZE, 0, 1, G4, 3},
        {"gb18030_2005", "ucs4internal", "\x90\x30\x81\x30", "\xff", STREAM, 0, 0, G4, 7}, {"gb18030_2005", "utf8", "\x90\x30\x81\x30", "\x90\x30", STREAM, 0, 0, G2, 1}, {"utf8", "gb18030_2005", "\xf0\x90\x80\x80", "", FULL, 0, 1, G4, 3},
        {"utf8", "c99", "\xf0\x90\x80\x80", "", STREAM, 0, 1, G4, 1}, {"utf8", "java", "\xf0\x90\x80\x80", "", SIZE, 0, 1, G4, 1}, {"utf8", "utf7", cjk8 + cjk8 + cjk8 + cjk8, "", STREAM, 0, 1, G2, 3}, {"utf8", "hz", cjk8 + "a", "", STREAM, 0, 1, G4, 1}, {"utf8", "iso2022_jp", cjk8 + "a", "", STREAM, 0, 1, G4, 1},
        {"utf8", "java", "\xf0\x90\x80\x80", "", ALLOC, 0, 1, G4, 1}, {"utf8", "java", "\xf0\x90\x80\x80", "", CXX, 0, 1, G2, 1}, {"ucs4le", "ascii", bytes("a\0\0\0", 4), "", ALLOC, 0, 0, G4, 1}, {"ucs4le", "ascii", bytes("a\0\0\0", 4), "", CXX, 0, 0, G4, 1}, {"ucs4le", "iso8859_1", bytes("a\0\0\0", 4), "\xff\xff\xff\x7f", STREAM, 0, 0, G4, 1},
        {"ucs4le", "ascii", bytes("\xe9\0\0\0", 4), bytes("a\0\0\0", 4), STREAM, 1, 0, G4, 1}, {"ucs4le", "utf8", "\xff\xff\xff\xff", bytes("a\0\0\0", 4), STREAM, 1, 0, G4, 1}, {"utf8", "utf16", "\xff", "a", SIZE, 1, 0, G2, 1}, {"ascii", "ascii", asc, "", STREAM, 0, 0, G2, 1}, {"ascii", "utf8", asc, "\x80", STREAM, 0, 0, G2, 1}, {"cp1255", "utf8", "\xe0\xc4", "", STREAM, 0, 0, G2, 1}, {"big5hkscs2008", "utf8", "\x88\x62", "", STREAM, 0, 0, G2, 3},
    };
    for (auto &r : RUNS()) { v.push_back({r.first, "utf8", r.second, "a", STREAM, 0, 0, G2, 5}); v.push_back({r.first, "ascii", r.second, "", SIZE, 0, 0, G1, 9}); for (int o = -3; o < 4; o += 3) v.push_back({r.first, "ucs4be", r.second, r.second.size() % 4 ? "\xff\xff" : "\xff\xff\xff\xff", STREAM, 0, 0, G1, o}); if (r.second.size() > 3) v.push_back({r.first, "utf16be", r.second, "\xff\xff\xff\xff", STREAM, 0, 0, G4, 9}); }
    return v;
}
SWEEP(c23_fixed, "c23_fixed", FX().size()) {
    Fix &x = FX()[I]; Enc *f = find(x.f), *t = find(x.t); if (!f || !t) { label("no such encoding"); return; }
    Spec s{f, t, x.fl, "", x.unit, x.tail, 0, x.kind, x.kind == FULL ? 3u : 0u}; size_t per = x.unit.size(); if (x.in_or_out) { Spec k = s; k.kind = STREAM; per = small(k, 9).out.size() - small(k, 8).out.size(); } s.reps = reps_for(x.boundary, per, x.off); one(s, thorough() ? 6e9 : 2.6e9, fmt("skipped: %s to %s", x.f, x.t).c_str());
}
static bool try_one(Src &S) {
    Enc &f = gen_enc(S), &t = gen_enc(S); Spec s{&f, &t, (int)(S.draw(4) == 0), "", "", "", 0, STREAM, 0}; s.kind = (int)S.draw(S.draw(4) ? 4 : NK);
    auto piece = [&](size_t n) -> bytes { switch (S.draw(5)) { case 0: return gen_bytes(S, f, n); case 1: { if (!f.toks.empty()) { bytes b; for (int k = 1 + S.draw(3); k--;) b += S.pick(f.toks); return b; } [[fallthrough]]; } default: { text x; for (auto c : gen_text(S, t, n)) if (f.rep.has(c)) x.push_back(c); return ref_encode(f, x, S.draw(2)); } } };
    s.head = S.draw(2) ? piece(4) : ""; s.unit = piece(1 + S.draw(6)); if (s.unit.empty() || s.unit.size() > 200) return false; s.tail = S.draw(2) ? piece(4) : ""; s.less = S.draw(3) ? S.draw(12) : 0; if (s.kind == FULL) s.less++;
    bytes A, B, C; long long cnt; Out base; if (!linear(s, A, B, C, cnt, base)) { return false; } static const size_t bds[] = {G1, G2, G2, G4, G4, 2 * G4}; size_t bd = bds[S.draw(B.empty() ? 6 : 5)]; size_t per = B.size() && S.draw(2) ? B.size() : s.unit.size(); s.reps = bd / per + S.draw(7) - 3; if (S.draw(4) == 0) s.reps = (bd - S.draw(64)) / per;
    return go(s, thorough() ? 3e9 : 0.9e9);
}
CASE(c23_rand, "c23_rand") { for (int k = 0; k < 12; k++) if (try_one(S)) return; label("no case found"); }
