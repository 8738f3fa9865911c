// C15: descriptors are independent and reusable. Oracle: the same calls on a descriptor alone; a fresh descriptor; the reference.
#include "stream.hpp"
#include <cppp/reiconv.hpp>
using namespace vp;
struct Op { int kind; bytes in; size_t cap; };
struct Res { long long ret; int err; size_t used; bytes out; bool operator==(const Res &o) const { return ret == o.ret && err == o.err && used == o.used && out == o.out; } };
enum { STREAM, RESET, FORGET, SIZE, STATIC, ALLOC };
static const char *KN[] = {"conversion call", "reset", "reset without buffer", "size prediction", "fixed-size conversion", "allocating conversion"};
static Res doop(Lib &L, void *cd, const Op &o) {
    Res r{};
    switch (o.kind) {
    case STREAM: { Call c = call(L, cd, o.in.data(), o.in.size(), o.cap); return {(long long)c.ret, c.err, c.used, c.out}; }
    case RESET: { Call c = call(L, cd, nullptr, 0, o.cap, true); return {(long long)c.ret, c.err, c.used, c.out}; }
    case FORGET: errno = 0; r.ret = (long long)L.iconv(cd, nullptr, nullptr, nullptr, nullptr); r.err = r.ret == -1 ? errno : 0; return r;
    case SIZE: errno = 0; r.ret = (long long)L.result_size(cd, o.in.data(), o.in.size()); r.err = r.ret == -1 ? errno : 0; return r;
    case STATIC: { bytes b(o.cap + 1, '\x5A'); errno = 0; r.ret = L.static_size(cd, o.in.data(), o.in.size(), &b[0], o.cap); r.err = r.ret == -1 ? errno : 0; if (r.ret == 0) { b.resize(o.cap); r.out = b; } return r; }
    default: { char *p = nullptr; size_t n = 0; errno = 0; r.ret = L.convert(cd, o.in.data(), o.in.size(), &p, &n); r.err = r.ret == -1 ? errno : 0; if (r.ret == 0) r.out.assign(p, n); { InLib l; free(p); } return r; }
    }
}
static std::string show(const Res &r) { return fmt("{returns %lld, error %d, consumes %zu, writes ", r.ret, r.err, r.used) + hex(r.out) + "}"; }
static Op genop(Src &S, Enc &f, Enc &t, bool oneshots) {
    Op o{}; uint32_t k = S.draw(10); o.kind = k < 5 ? STREAM : k < 7 ? RESET : k == 7 ? FORGET : oneshots ? SIZE + (int)S.draw(3) : STREAM;
    if (o.kind != RESET && o.kind != FORGET) { if (S.draw(3)) { text x; for (auto c : gen_text(S, t, 8)) if (f.rep.has(c)) x.push_back(c); o.in = ref_encode(f, x, S.draw(2)); } else o.in = gen_bytes(S, f, 14); }
    o.cap = S.draw(3) ? ample(o.in.size()) : S.draw(12); return o;
}
static bool bom_ok(Enc &f, Enc &t, int fl, const Op &o, const Res &r) { // the result under either byte order
    for (int le = 0; le < 2; le++) { Cd x(SUT, f, t, fl); bytes b = le ? (f.unit == 2 ? "\xff\xfe"_b : "\xff\xfe\0\0"_b) : ""_b; if (le) call(SUT, x, b.data(), b.size(), 8); SUT.iconv(x, nullptr, nullptr, nullptr, nullptr); Res w = doop(SUT, x, o); if (r == w) return true; }
    return false;
}
struct D { Enc *f, *t; int fl; void *cd, *ref; bool mirrored; std::vector<Op> ops; std::vector<Res> res; };
static void alone(D &d, size_t n) {
    Cd cd(SUT, *d.f, *d.t, d.fl);
    for (size_t i = 0; i < d.ops.size(); i++) { Res r = doop(SUT, cd, d.ops[i]); if (!(r == d.res[i])) fail("%s, flags %d, call %zu of %zu (%s, input %s, room %zu): among %zu descriptors %s, alone %s", pairname(*d.f, *d.t).c_str(), d.fl, i + 1, d.ops.size(), KN[d.ops[i].kind], hex(d.ops[i].in).c_str(), d.ops[i].cap, n, show(d.res[i]).c_str(), show(r).c_str()); }
}
CASE(c15_inter, "c15_inter") {
    std::vector<D> o, done; size_t ops = 3 + S.draw(28), total = 0; mem::reset(); Enc *lf = nullptr, *lt = nullptr;
    auto close = [&](size_t i) { if (SUT.close(o[i].cd)) fail("closing fails"); REF.close(o[i].ref); done.push_back(o[i]); o.erase(o.begin() + i); };
    for (size_t k = 0; k < ops; k++) {
        uint32_t what = o.size() < 2 ? 0 : S.draw(12);
        if (what == 0 || (what == 1 && o.size() < 6)) { // another descriptor, often of the same encodings
            if (!lf || S.draw(3) == 0) lf = &gen_enc(S); if (!lt || S.draw(3) == 0) lt = &gen_enc(S); D d{lf, lt, (int)(S.draw(4) == 0), nullptr, nullptr, true, {}, {}}; if (S.draw(4) == 0) std::swap(d.f, d.t); d.cd = xopen(SUT, *d.f, *d.t, d.fl); d.ref = xopen(REF, *d.f, *d.t, d.fl); o.push_back(d); total++;
        } else if (what == 2 && o.size() > 1) close(S.draw((uint32_t)o.size()));
        else if (what == 3) { // unrelated calls
            switch (S.draw(4)) { case 0: { Enc &e = gen_enc(S); SUT.lookup(e.names[0].c_str()); SUT.lookup("NO-SUCH-NAME"); SUT.lookup_cp(1252); break; } case 1: SUT.open_name("NO-SUCH", "UTF-8", 0); break; case 2: { Enc &f = gen_enc(S), &t = gen_enc(S); bytes in = gen_bytes(S, f, 10); try { reiconv::convert((reiconv::Encodings)f.sut, (reiconv::Encodings)t.sut, in); } catch (std::exception &) {} break; } default: { Enc &f = gen_enc(S), &t = gen_enc(S); Cd x(SUT, f, t, 0); bytes in = gen_bytes(S, f, 10); call(SUT, x, in.data(), in.size(), ample(in.size())); } }
        } else {
            D &d = o[S.draw((uint32_t)o.size())]; Op p = genop(S, *d.f, *d.t, true); Res r = doop(SUT, d.cd, p);
            // The reference makes the same calls, as long as one-shot conversions have not been mixed with streaming.
            if (p.kind >= SIZE) { if (d.f->bom) d.mirrored = false; else if (d.mirrored) d.mirrored = false; }
            else { if (p.kind == FORGET && !d.f->bom && !d.mirrored) { d.mirrored = true; } if (d.mirrored) { Res w = doop(REF, d.ref, p); if (!(r == w)) fail("%s, flags %d, call %zu (%s, input %s, room %zu) among %zu descriptors: %s, expected %s", pairname(*d.f, *d.t).c_str(), d.fl, d.ops.size() + 1, KN[p.kind], hex(p.in).c_str(), p.cap, o.size(), show(r).c_str(), show(w).c_str()); } }
            if (p.kind >= SIZE) { Cd fr(SUT, *d.f, *d.t, d.fl); Res w = doop(SUT, fr, p); if (!(r == w) && !(d.f->bom && bom_ok(*d.f, *d.t, d.fl, p, r))) fail("%s, flags %d, call %zu (%s, input %s, room %zu) among %zu descriptors: %s, on a fresh descriptor %s", pairname(*d.f, *d.t).c_str(), d.fl, d.ops.size() + 1, KN[p.kind], hex(p.in).c_str(), p.cap, o.size(), show(r).c_str(), show(w).c_str()); }
            d.ops.push_back(p); d.res.push_back(r);
        }
    }
    size_t n = o.size(); while (!o.empty()) close(S.draw((uint32_t)o.size()));
    if (mem::available && mem::live()) fail("%ld blocks are left after closing all descriptors", mem::live());
    uint64_t h = 0; std::string s; size_t nonempty = 0; for (auto &d : done) { alone(d, total); for (auto &p : d.ops) h = hash_str(p.in, mix(h, p.kind)); nonempty += !d.ops.empty(); if (s.size() < 200) s += pairname(*d.f, *d.t) + fmt(" (%zu calls); ", d.ops.size()); }
    if (nonempty > 1) nontrivial(mix(h, total)); label(fmt("%zu descriptors", total).c_str()); sample(s); (void)n;
}
// A history of one-shot conversions on one descriptor, failing or not, each compared with a fresh descriptor and with streaming.
CASE(c15_oneshot, "c15_oneshot") {
    Enc &f = gen_enc(S), &t = gen_enc(S); int fl = S.draw(4) == 0; Cd cd(SUT, f, t, fl); int n = 2 + S.draw(6); std::string log; bool failed = false; uint64_t h = mix(f.idx * 256 + t.idx, fl); int after = 0;
    for (int k = 0; k < n; k++) {
        Op o = genop(S, f, t, true); o.kind = SIZE + (int)S.draw(3); if (S.flip(1, 60)) { o.in = amplify(S, o.in, 9000); o.cap = S.draw(2) ? ample(o.in.size()) : S.draw((uint32_t)o.in.size() + 10); }
        if (o.kind == STATIC && S.draw(2)) { Result w = run(REF, f, t, fl, o.in); o.cap = w.out.size() + S.draw(3); if (S.draw(2) && o.cap) o.cap -= 1; }
        Res r = doop(SUT, cd, o); log += fmt("%s of %s, room %zu; ", KN[o.kind], hex(o.in, 30).c_str(), o.cap); h = hash_str(o.in, mix(h, o.kind));
        Cd fresh(SUT, f, t, fl); Res w = doop(SUT, fresh, o);
        if (!(r == w) && !(f.bom && bom_ok(f, t, fl, o, r))) fail("%s, flags %d: one-shot history [%s] gives %s, a fresh descriptor %s", pairname(f, t).c_str(), fl, log.c_str(), show(r).c_str(), show(w).c_str());
        if (!f.bom) { Cd ref(REF, f, t, fl); Res x = doop(REF, ref, o); bool sameerr = r.err == x.err || (r.err && x.err && o.kind != STATIC && r.err != E2BIG); if (r.ret != x.ret || !sameerr || r.out != x.out) { if (o.kind == STATIC && run(REF, f, t, fl, o.in).status) ; else fail("%s, flags %d: one-shot history [%s] gives %s, expected %s", pairname(f, t).c_str(), fl, log.c_str(), show(r).c_str(), show(x).c_str()); } }
        if (failed) after++; if (r.ret == -1) failed = true;
    }
    if (after) label("after a failure"); else label("successes only"); nontrivial(h); sample(pairname(f, t) + ": " + log);
}
// Every pair of encodings after a failed one-shot conversion that stops in a shifted state, for every kind of failure.
SWEEP(c15_shift, "c15_shift", E.size() * 4) {
    Enc &t = E[I / 4]; Enc *src[] = {&enc("utf8"), &E[PIV], &enc("iso2022_jp"), &enc("utf16")}; Enc &f = *src[I % 4]; Src S; S.st = mix(base_seed(), I);
    for (int k = 0; k < (t.stateful || t.composing ? 300 : 40); k++) {
        text x; for (auto c : gen_text(S, t, 6)) if (f.rep.has(c)) x.push_back(c); bytes good = ref_encode(f, x), bad = good + (f.unit == 1 ? "\xff\xff"_b : f.unit == 4 ? "\xff\xff\xff\xff"_b : "\xdc\x00\xdc\x00"_b), cut = good.substr(0, good.empty() ? 0 : good.size() - 1);
        Op first[] = {{SIZE, bad, 0}, {STATIC, bad, ample(bad.size())}, {ALLOC, bad, 0}, {STATIC, good, good.empty() ? 0 : S.draw((uint32_t)good.size())}, {SIZE, cut, 0}, {STATIC, cut, ample(cut.size())}, {ALLOC, cut, 0}, {ALLOC, good, 0}, {SIZE, good, 0}, {STATIC, good, ample(good.size())}};
        text y; for (auto c : gen_text(S, t, 4)) if (f.rep.has(c)) y.push_back(c); bytes next = ref_encode(f, y);
        for (auto &o : first) for (int kind = SIZE; kind <= ALLOC; kind++) for (int fl = 0; fl < 2; fl++) {
            Op p{kind, next, ample(next.size())}; Cd cd(SUT, f, t, fl); doop(SUT, cd, o); Res r = doop(SUT, cd, p); Cd fr(SUT, f, t, fl); Res w = doop(SUT, fr, p); evals(1);
            if (!(r == w) && !(f.bom && bom_ok(f, t, fl, p, r))) fail("%s, flags %d: after %s of %s, %s of %s gives %s, on a fresh descriptor %s", pairname(f, t).c_str(), fl, KN[o.kind], hex(o.in).c_str(), KN[kind], hex(next).c_str(), show(r).c_str(), show(w).c_str());
        }
        if (next.size() > 1 && good.size() > 1) nontrivial(hash_str(good, hash_str(next, I)));
    }
    label("failure kinds");
}

// Very many descriptors at a time.
CASE(c15_mass, "c15_mass") {
    struct M { void *cd; Enc *f, *t; int fl; bytes sofar; }; std::vector<M> o; size_t n = 1 + S.draw(thorough() ? 6000 : 1500); mem::reset(); Enc &a = gen_enc(S), &b = gen_enc(S); Rng rng(mix(S.draw(1u << 30), 1)); bool mixed = S.draw(2);
    for (size_t i = 0; i < n; i++) { Enc &f = mixed ? E[rng((uint32_t)E.size())] : a, &t = mixed ? E[rng((uint32_t)E.size())] : b; int fl = rng(3) == 0; o.push_back({xopen(SUT, f, t, fl), &f, &t, fl, {}}); if (rng(20) == 0) { size_t k = rng((uint32_t)o.size()); if (SUT.close(o[k].cd)) fail("closing fails"); o.erase(o.begin() + k); } }
    { std::set<void *> d; for (auto &m : o) if (!d.insert(m.cd).second) fail("%zu descriptors open: two of them are the same", o.size()); }
    // First halves of texts, then second halves in another order.
    std::vector<bytes> halves(o.size()); std::vector<Call> first(o.size());
    for (size_t i = 0; i < o.size(); i++) { M &m = o[i]; text x; for (int k = 0; k < 4; k++) { uint32_t c = m.t->reprs.empty() ? 'A' : m.t->reprs[rng((uint32_t)m.t->reprs.size())]; if (m.f->rep.has(c)) x.push_back(c); } halves[i] = ref_encode(*m.f, x, false); first[i] = call(SUT, m.cd, halves[i].data(), halves[i].size(), 200); }
    std::vector<size_t> ord(o.size()); for (size_t i = 0; i < ord.size(); i++) ord[i] = i; for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[rng((uint32_t)i)]);
    for (size_t i : ord) { M &m = o[i]; Cd r(REF, *m.f, *m.t, m.fl); Call w = call(REF, r, halves[i].data(), halves[i].size(), 200); if (w.ret != first[i].ret || w.out != first[i].out || w.used != first[i].used) fail("%s, one of %zu descriptors: %s gives %s, expected %s", pairname(*m.f, *m.t).c_str(), o.size(), hex(halves[i]).c_str(), hex(first[i].out).c_str(), hex(w.out).c_str());
        bytes more = ref_encode(*m.f, {'z', 0x4E00, 0x3042}); Result g = run(SUT, m.cd, more), v = run(REF, r, more); if (g != v) fail("%s, one of %zu descriptors: %s, then %s gives %s, expected %s", pairname(*m.f, *m.t).c_str(), o.size(), hex(halves[i]).c_str(), hex(more).c_str(), show(g).c_str(), show(v).c_str()); if (SUT.close(m.cd)) fail("closing one of %zu descriptors fails", o.size()); }
    if (mem::available && mem::live()) fail("%ld blocks are left after closing %zu descriptors", mem::live(), n);
    nontrivial(mix(n, mix(a.idx, b.idx))); label(n > 1024 ? "more than 1024 descriptors" : "up to 1024 descriptors"); sample(fmt("%zu descriptors, %s", n, mixed ? "of all encodings" : pairname(a, b).c_str()));
}
// Very many one-shot conversions on one descriptor, from and to the same memory with changing contents.
SWEEP(c15_same, "c15_same", E.size() * 2) {
    Enc &e = E[I / 2]; Enc &f = I % 2 ? e : enc("utf8"), &t = I % 2 ? enc("utf8") : e; Rng rng(mix(base_seed(), I)); Src S; S.st = mix(base_seed(), I); if (f.bom) return;
    struct T { bytes in; Result w; }; std::vector<T> m; for (int k = 0; k < 24; k++) { bytes in = k < 16 ? ref_encode(f, gen_text(S, e, 4)) : gen_bytes(S, f, 8); if (in.size() > 90) in.resize(90); m.push_back({in, run(REF, f, t, 0, in)}); }
    Cd cd(SUT, f, t, 0); static thread_local char ib[100], ob[2000]; int N = thorough() ? 400000 : 20000; static thread_local char *blk = nullptr;
    for (int k = 0; k < N; k++) {
        T &x = m[rng(24)]; memcpy(ib, x.in.data(), x.in.size()); bool ok = !x.w.status && !x.w.flush; bytes got; long long r = 0; int kind = rng(3); errno = 0;
        if (kind == 0) { size_t z = SUT.result_size(cd, ib, x.in.size()); r = z == (size_t)-1 ? -1 : 0; if (ok && z != x.w.out.size()) fail("%s, one-shot %d: size of %s predicted as %zd, expected %zu", pairname(f, t).c_str(), k + 1, hex(x.in).c_str(), (ssize_t)z, x.w.out.size()); got = x.w.out; }
        else if (kind == 1) { if (!ok && x.w.status == EINVAL) continue; size_t cap = x.w.out.size() + rng(30); memset(ob, 0x5A, cap); r = SUT.static_size(cd, ib, x.in.size(), ob, cap); got.assign(ob, x.w.out.size()); }
        else { size_t n = 0; char *was = blk; r = SUT.convert(cd, ib, x.in.size(), &blk, &n); if (r == 0) got.assign(blk, n); (void)was; }
        if ((r == 0) != ok || (ok && got != x.w.out)) fail("%s, one-shot call %d (%s) of %s: returns %lld, %s, expected %s", pairname(f, t).c_str(), k + 1, KN[SIZE + kind], hex(x.in).c_str(), r, hex(got).c_str(), show(x.w).c_str());
        evals(1);
    }
    free(blk); blk = nullptr; for (auto &x : m) if (x.in.size() > 1) nontrivial(hash_str(x.in, I)); label("one-shot calls on one descriptor", N);
}
// What one descriptor went through must not reach another, nor survive it: A in each state, then every probe on B, then A goes on.
SWEEP(c15_leak, "c15_leak", E.size() * 2) {
    Enc &e = E[I / 2]; bool dec = I % 2; Enc &u = E[PIV]; Enc &f = dec ? e : u, &t = dec ? u : e; std::vector<bytes> el;
    if (dec) { el = tok_elems(e); for (auto &x : text_elems(e, 40)) el.push_back(ref_encode(e, x, true)); } else for (auto &x : text_elems(e, 60)) el.push_back(ref_encode(u, x));
    std::sort(el.begin(), el.end()); el.erase(std::unique(el.begin(), el.end()), el.end()); size_t lim = thorough() ? 70 : 46; Rng rng(mix(base_seed(), I)); while (el.size() > lim) el.erase(el.begin() + rng((uint32_t)el.size()));
    auto go = [&](Lib &L, void *cd, const bytes &b) { Call c = call(L, cd, b.data(), b.size(), ample(b.size())); return Res{(long long)c.ret, c.err, c.used, c.out}; };
    size_t n = el.size(); std::vector<bytes> probe; for (size_t i = 0; i < n; i++) { probe.push_back(el[i]); for (size_t j = 0; j < n; j++) probe.push_back(el[i] + el[j]); }
    for (int fl = 0; fl < 2; fl++) {
        std::vector<Res> want; for (auto &p : probe) { Cd r(REF, f, t, fl); want.push_back(go(REF, r, p)); }
        for (size_t a = 0; a < probe.size(); a++) {
            Cd A(SUT, f, t, fl); go(SUT, A, probe[a]); // A stays in the state this leaves
            size_t step = n * n > 900 ? 1 + rng(3) : 1;
            for (size_t b = rng((uint32_t)step); b < probe.size(); b += step) { Cd B(SUT, f, t, fl); Res g = go(SUT, B, probe[b]); evals(1); if (!(g == want[b])) fail("%s, flags %d: after another descriptor converted %s, a fresh one gives %s for %s, expected %s", pairname(f, t).c_str(), fl, hex(probe[a]).c_str(), show(g).c_str(), hex(probe[b]).c_str(), show(want[b]).c_str()); }
            const bytes &z = el[rng((uint32_t)n)]; Cd R(REF, f, t, fl); go(REF, R, probe[a]); Res g = go(SUT, A, z), w = go(REF, R, z); if (!(g == w)) fail("%s, flags %d: after %s, and other descriptors being used, %s gives %s, expected %s", pairname(f, t).c_str(), fl, hex(probe[a]).c_str(), hex(z).c_str(), show(g).c_str(), show(w).c_str());
            if (probe[a].size() > 1) nontrivial(hash_str(probe[a], mix(I, fl)));
        }
    }
    label(dec ? "decoder states" : "encoder states"); sample(pairname(f, t) + fmt(": %zu histories before each of %zu probes", probe.size(), probe.size()));
}
