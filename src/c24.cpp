// C24: threads. Oracle: the same calls alone in one thread (before and after), and ThreadSanitizer.
#include "stream.hpp"
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <cppp/reiconv.h>
#include <cppp/reiconv.hpp>
using namespace vp;
enum { OPEN, CLOSE, STREAM, RESET, FORGET, SIZE, STATIC, ALLOC, LOOKUP, LOOKCP, CXX, CXXNAME, NKINDS };
struct Op { int kind; const Enc *f, *t; int fl; bytes in; size_t cap; std::string name; int how; };
typedef std::vector<Op> Script;
// Executes calls on one descriptor at a time; every result is written to a log. No checks that use shared state of the harness.
struct Ctx {
    void *cd = nullptr; std::string log;
    void put(const char *f, ...) { char b[300]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); log += b; }
    void close() { if (cd) { put("close %d\n", reiconv_handle_close((reiconv_t)cd)); cd = nullptr; } }
    void go(const Op &o) {
        switch (o.kind) {
        case OPEN: close(); errno = 0; cd = o.how == 0 ? SUT.open(o.f->sut, o.t->sut, o.fl) : o.how == 1 ? SUT.open_name(o.f->names[0].c_str(), o.t->names.back().c_str(), o.fl) : SUT.open_iconv((o.t->names[0] + (o.fl ? "//IGNORE" : "")).c_str(), o.f->names[0].c_str()); if (cd == (void *)-1) { cd = nullptr; put("open failed %d\n", errno); } else put("open\n"); break;
        case CLOSE: close(); break;
        case LOOKUP: { char buf[64]; put("name %d", SUT.lookup(o.name.c_str())); if (o.name.size() < 60) { buf[0] = 0; size_t n = SUT.canon(o.name.c_str(), buf); put(" canon %zu", n); if (n < 64) log.append(buf, n); } put("\n"); break; }
        case LOOKCP: put("cp %d\n", SUT.lookup_cp(o.how)); break;
        case CXX: try { bytes r = reiconv::convert((reiconv::Encodings)o.f->sut, (reiconv::Encodings)o.t->sut, o.in, (reiconv::ConvertFlag)o.fl); put("C++ "); log += r; } catch (std::system_error &x) { put("C++ error %d", x.code().value()); log += x.what(); } catch (std::exception &x) { put("C++ exception"); } put("\n"); break;
        case CXXNAME: try { reiconv::Encoding e(o.name); put("C++ name %d\n", (int)e); } catch (std::exception &) { put("C++ unknown\n"); } break;
        default:
            if (!cd) return;
            if (o.kind == STREAM || o.kind == RESET) {
                char *ib = (char *)malloc(o.in.size() + 1), *ob = (char *)malloc(o.cap + 1), *ip = ib, *op = ob; memcpy(ib, o.in.data(), o.in.size()); size_t il = o.in.size(), ol = o.cap; errno = 0;
                size_t r = o.kind == RESET ? SUT.iconv(cd, nullptr, nullptr, &op, &ol) : SUT.iconv(cd, &ip, &il, &op, &ol); int e = errno;
                put("%zd e%d used %zu out %zu ", (ssize_t)r, r == (size_t)-1 ? e : 0, o.in.size() - il, o.cap - ol); if (o.cap - ol <= o.cap) log.append(ob, o.cap - ol); put("\n"); free(ib); free(ob);
            } else if (o.kind == FORGET) put("forget %zd\n", (ssize_t)SUT.iconv(cd, nullptr, nullptr, nullptr, nullptr));
            else if (o.kind == SIZE) { errno = 0; size_t r = SUT.result_size(cd, o.in.data(), o.in.size()); int e = errno; put("size %zd e%d\n", (ssize_t)r, r == (size_t)-1 ? e : 0); }
            else if (o.kind == STATIC) { bytes b(o.cap + 1, 0x5A); errno = 0; int r = SUT.static_size(cd, o.in.data(), o.in.size(), &b[0], o.cap); int e = errno; put("static %d e%d ", r, r ? e : 0); if (!r) log.append(b.data(), o.cap); put("\n"); }
            else { char *p = nullptr; size_t n = 0; errno = 0; int r = SUT.convert(cd, o.in.data(), o.in.size(), &p, &n); int e = errno; put("convert %d e%d ", r, r ? e : 0); if (!r) log.append(p, n); put("\n"); free(p); }
        }
    }
};
static std::string alone(const Script &s) { Ctx c; for (auto &o : s) c.go(o); c.close(); return c.log; }
static Op convop(Src &S, Enc &f, Enc &t) {
    Op o{}; uint32_t k = S.draw(10); o.kind = k < 5 ? STREAM : k < 6 ? RESET : k == 6 ? FORGET : SIZE + (int)S.draw(3);
    if (o.kind != RESET && o.kind != FORGET) { if (S.draw(3)) { text x; for (auto c : gen_text(S, t, 8)) if (f.rep.has(c)) x.push_back(c); o.in = ref_encode(f, x, S.draw(2)); } else o.in = gen_bytes(S, f, 14); }
    o.cap = S.draw(3) ? ample(o.in.size()) : S.draw(12); return o;
}
static Op openop(Src &S, Enc &f, Enc &t) { Op o{}; o.kind = OPEN; o.f = &f; o.t = &t; o.fl = S.draw(3) == 0; o.how = (int)S.draw(3); return o; }
static Op other(Src &S) {
    Op o{}; Enc &e = gen_enc(S);
    switch (S.draw(4)) {
    case 0: o.kind = LOOKUP; o.name = S.draw(4) ? S.pick(e.names) : S.pick(e.names) + "X"; break;
    case 1: o.kind = LOOKCP; o.how = S.draw(2) ? (int)S.draw(66000) : (int)(1250 + S.draw(9)); break;
    case 2: o.kind = CXXNAME; o.name = S.draw(4) ? S.pick(e.names) : "NOSUCH" + S.pick(e.names); break;
    default: { Enc &t = gen_enc(S); o = convop(S, e, t); o.kind = CXX; o.f = &e; o.t = &t; o.fl = S.draw(3) == 0; }
    }
    return o;
}
static Script genscript(Src &S) {
    Script s; Enc *f = &gen_enc(S), *t = &gen_enc(S); s.push_back(openop(S, *f, *t));
    for (int n = 2 + S.draw(8); n--;) switch (S.draw(8)) { case 0: s.push_back(other(S)); break; case 1: f = &gen_enc(S); t = &gen_enc(S); s.push_back(openop(S, *f, *t)); break; default: s.push_back(convop(S, *f, *t)); }
    return s;
}
static std::string kinds(const Script &s) { static const char *n[] = {"open", "close", "call", "reset", "forget", "size", "static", "alloc", "lookup", "codepage", "C++", "C++ name"}; std::string r; for (auto &o : s) { r += n[o.kind]; if (o.kind == OPEN) r += " " + pairname(*o.f, *o.t); r += "; "; if (r.size() > 150) break; } return r; }
static std::string firstdiff(const std::string &a, const std::string &b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; size_t l = a.rfind('\n', i ? i - 1 : 0); l = l == std::string::npos ? 0 : l + 1; return hex(a.substr(l, 60)) + " / " + hex(b.substr(std::min(l, b.size()), 60)); }
static void together(const std::vector<Script> &ss, int reps) {
    std::vector<std::string> want; for (auto &s : ss) want.push_back(alone(s));
    for (int r = 0; r < reps; r++) {
        std::vector<Ctx> cx(ss.size()); std::vector<std::thread> th; std::atomic<int> ready{0};
        for (size_t i = 0; i < ss.size(); i++) th.emplace_back([&, i] { ready.fetch_add(1); while (ready.load(std::memory_order_relaxed) < (int)ss.size()) std::this_thread::yield(); for (auto &o : ss[i]) cx[i].go(o); cx[i].close(); });
        for (auto &t : th) t.join();
        for (size_t i = 0; i < ss.size(); i++) if (cx[i].log != want[i]) fail("thread %zu of %zu (%s) gets another result than alone: %s", i + 1, ss.size(), kinds(ss[i]).c_str(), firstdiff(cx[i].log, want[i]).c_str());
    }
    for (size_t i = 0; i < ss.size(); i++) if (alone(ss[i]) != want[i]) fail("after %zu threads ended, the calls %s give another result than before", ss.size(), kinds(ss[i]).c_str());
}
CASE(c24_rand, "c24_rand") {
    std::vector<Script> ss; int n = 2 + (int)S.draw(3); for (int i = 0; i < n; i++) if (i && S.draw(2)) ss.push_back(ss[S.draw(i)]); else ss.push_back(genscript(S));
    together(ss, 1); uint64_t h = 0; for (auto &s : ss) for (auto &o : s) h = hash_str(o.in, mix(h, o.kind)); nontrivial(h); label(fmt("%d threads", n).c_str()); sample(kinds(ss[0]) + "| " + kinds(ss[1]));
}
// Every encoding, in both directions, from two threads doing the same and one doing the opposite, over its whole repertoire.
SWEEP(c24_enc, "c24_enc", E.size()) {
    Enc &e = E[I]; Src S; S.st = mix(base_seed(), I); Enc &u = enc("utf8"); std::vector<text> chunks; text cur; uint64_t step = std::max<uint64_t>(1, e.rep.n / (thorough() ? 2000000 : 60000));
    for (uint64_t k = S.draw((uint32_t)step); k < e.rep.n; k += step) { cur.push_back(e.rep.at(k)); if (cur.size() >= 200) { chunks.push_back(cur); cur.clear(); } } chunks.push_back(cur);
    for (int k = 0; k < 12; k++) chunks.push_back(gen_text(S, e, 30));
    Script a, b;
    for (int fl = 0; fl < 2; fl++) {
        Op oa = openop(S, u, e), ob = openop(S, e, u); oa.fl = ob.fl = fl; a.push_back(oa); b.push_back(ob);
        for (size_t k = 0; k < chunks.size(); k++) {
            bytes x = ref_encode(u, chunks[k]), y = ref_encode(e, chunks[k]); Op o{}; o.kind = fl ? k % 4 == 0 ? SIZE : k % 4 == 1 ? STATIC : k % 4 == 2 ? ALLOC : STREAM : STREAM;
            o.in = x; o.cap = o.kind == STATIC ? y.size() + 40 : ample(x.size()); a.push_back(o); o.in = y; o.cap = o.kind == STATIC ? x.size() + 40 : ample(y.size()); b.push_back(o);
            if (k % 3 == 2) { Op r{}; r.kind = RESET; r.cap = 64; a.push_back(r); b.push_back(r); }
        }
        for (int k = 0; k < 20; k++) { Op o = convop(S, u, e); a.push_back(o); b.push_back(convop(S, e, u)); Op m{}; m.kind = STREAM; m.in = gen_bytes(S, e, 20); m.cap = ample(20); b.push_back(m); m.in = ref_encode(u, gen_any(S, e, 12)); m.cap = ample(m.in.size()); a.push_back(m); a.push_back(other(S)); b.push_back(other(S)); }
    }
    for (auto &n : e.names) { Op o{}; o.kind = LOOKUP; o.name = n; a.push_back(o); o.kind = CXXNAME; b.push_back(o); }
    together({a, a, b, b}, 1); evals(a.size() + b.size()); for (auto &o : a) nontrivial(hash_str(o.in, mix(I, o.kind))); for (auto &o : b) nontrivial(hash_str(o.in, mix(I, 100 + o.kind))); label("encodings");
}
// One descriptor, handed from thread to thread between calls.
CASE(c24_hand, "c24_hand") {
    Script s = genscript(S); int n = 2 + (int)S.draw(2); std::vector<int> who; for (size_t i = 0; i < s.size(); i++) who.push_back((int)S.draw(n));
    std::string want = alone(s); Ctx c; std::mutex m; std::condition_variable cv; size_t turn = 0; std::vector<std::thread> th;
    for (int w = 0; w < n; w++) th.emplace_back([&, w] { std::unique_lock<std::mutex> l(m); for (;;) { cv.wait(l, [&] { return turn >= s.size() || who[turn] == w; }); if (turn >= s.size()) { cv.notify_all(); return; } c.go(s[turn]); turn++; cv.notify_all(); } });
    for (auto &t : th) t.join(); c.close();
    if (c.log != want) fail("a descriptor handed among %d threads (%s) gives another result than in one thread: %s", n, kinds(s).c_str(), firstdiff(c.log, want).c_str());
    int sw = 0; for (size_t i = 1; i < who.size(); i++) sw += who[i] != who[i - 1]; if (sw) { uint64_t h = 0; for (auto &o : s) h = hash_str(o.in, mix(h, o.kind)); nontrivial(h); } label("handed over"); sample(kinds(s));
}
