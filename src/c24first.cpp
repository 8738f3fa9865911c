// The first library calls of a process, made by several threads at once, under ThreadSanitizer: c24first SEED
#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <thread>
#include <vector>
#include <cppp/reiconv.h>
#include <cppp/reiconv.hpp>
static uint64_t st; static uint32_t draw(uint32_t n) { st += 0x9E3779B97F4A7C15ull; uint64_t z = st; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; z ^= z >> 31; return (uint32_t)((z >> 32) * n >> 32); }
static const char *N[] = {
#include "vp_names.inc"
};
static const size_t NN = sizeof N / sizeof *N;
struct Op { int kind; const char *a, *b; int n; std::string in; };
static std::string conv(reiconv_t cd, const std::string &in, int how) {
    std::string r; if (cd == (reiconv_t)-1 || !cd) return "failed";
    if (how == 0) { char *p = nullptr; size_t n = 0; int k = reiconv_convert(cd, in.data(), in.size(), &p, &n); r = k ? "error" : std::string(p, n); free(p); }
    else { std::string o(in.size() * 14 + 64, 0); char *ip = (char *)in.data(), *op = &o[0]; size_t il = in.size(), ol = o.size(); size_t k = reiconv_iconv(cd, &ip, &il, &op, &ol); r = std::to_string(k) + ":" + std::to_string(il) + ":" + o.substr(0, o.size() - ol); }
    reiconv_handle_close(cd); return r;
}
static std::string go(const Op &o) {
    switch (o.kind) {
    case 0: return std::to_string(reiconv_lookup_from_name(o.a));
    case 1: return std::to_string(reiconv_lookup_from_codepage(o.n));
    case 2: return conv(reiconv_open_from_name(o.a, o.b, (ConvertFlag)0), o.in, 0);
    case 3: return conv(reiconv_open_from_codepage(o.n, 65001, (ConvertFlag)0), o.in, 1);
    case 4: return conv(reiconv_open(o.a, o.b), o.in, 1);
    case 5: try { return reiconv::convert(o.a, o.b, o.in); } catch (std::exception &x) { return x.what(); }
    case 6: return conv(reiconv_open_from_index(o.n % 190, (o.n / 190) % 190, (ConvertFlag)1), o.in, 0);
    default: return std::to_string(reiconv_version.major * 10000 + reiconv_version.minor * 100 + reiconv_version.patch);
    }
}
int main(int c, char **v) {
    st = strtoull(v[1], nullptr, 10) * 7919 + 3; size_t n = 2 + draw(3); std::vector<Op> first; std::vector<std::vector<Op>> s(n); size_t len = 1 + draw(4);
    for (size_t k = 0; k < len; k++) { Op o; o.kind = (int)draw(8); o.a = N[draw(NN)]; o.b = draw(2) ? "UTF-8" : N[draw(NN)]; if (draw(2)) std::swap(o.a, o.b); static const int cp[] = {1252, 932, 65001, 936, 949, 950, 28591, 1200}; o.n = draw(2) ? cp[draw(8)] : (int)draw(66000); for (size_t m = draw(30); m--;) o.in += (char)(draw(3) ? 0x20 + draw(95) : draw(256)); first.push_back(o); }
    for (size_t i = 0; i < n; i++) { s[i] = first; if (draw(3) == 0) for (auto &o : s[i]) o.kind = (int)draw(8); }
    std::vector<std::vector<std::string>> r(n); std::atomic<int> ready{0}; std::vector<std::thread> th;
    for (size_t i = 0; i < n; i++) th.emplace_back([&, i] { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < (int)n) {} for (auto &o : s[i]) r[i].push_back(go(o)); });
    for (auto &t : th) t.join();
    for (size_t i = 0; i < n; i++) for (size_t k = 0; k < s[i].size(); k++) if (go(s[i][k]) != r[i][k]) { printf("thread %zu, call %zu (kind %d, %s, %s, %d): another result than later alone\n", i, k, s[i][k].kind, s[i][k].a, s[i][k].b, s[i][k].n); return 1; }
    return 0;
}
