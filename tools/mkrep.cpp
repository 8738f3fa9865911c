// Freezes, per encoding, the set of representable code points and the subset that survives encode+decode singly,
// as data/repertoire.bin. Run once at the pinned commit; the checks only read the result.
#include "../src/ref_api.h"
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <thread>
#include <vector>
#include <atomic>
using namespace std;
static void varint(string &s, uint32_t v) { while (v >= 128) { s += char(v | 128); v >>= 7; } s += char(v); }
static string ranges(const vector<uint32_t> &v) { vector<pair<uint32_t, uint32_t>> r; for (auto c : v) if (!r.empty() && r.back().second + 1 == c) r.back().second = c; else r.push_back({c, c});
    string s; varint(s, r.size()); uint32_t last = 0; for (auto &p : r) { varint(s, p.first - last); varint(s, p.second - p.first); last = p.second; } return s; }
int main(int argc, char **argv) {
    int N = 198, piv = ref_reiconv_lookup_from_name("UCS-4-INTERNAL"); vector<string> res(N); atomic<int> next{0};
    auto work = [&] { for (int e; (e = next++) < N;) {
        void *enc = ref_reiconv_open_from_index(piv, e, 1), *dec = ref_reiconv_open_from_index(e, piv, 0); vector<uint32_t> rep, rt;
        for (uint32_t c = 0; c <= 0x10FFFF; c++) {
            if (c >= 0xD800 && c < 0xE000) continue;
            char o[64], *op = o, *ip = (char *)&c; size_t il = 4, ol = 64;
            size_t r = ref_reiconv_iconv(enc, &ip, &il, &op, &ol);
            if (r == 0) r = ref_reiconv_iconv(enc, 0, 0, &op, &ol);
            ref_reiconv_iconv(enc, 0, 0, 0, 0);
            if (r != 0 || op == o) continue;
            rep.push_back(c);
            uint32_t back[8]; char *bp = (char *)back; size_t bl = sizeof back; ip = o; il = op - o;
            void *d = dec; void *fresh = 0; if (op - o >= 2) d = fresh = ref_reiconv_open_from_index(e, piv, 0);
            r = ref_reiconv_iconv(d, &ip, &il, &bp, &bl); if (r == 0) r = ref_reiconv_iconv(d, 0, 0, &bp, &bl);
            ref_reiconv_iconv(d, 0, 0, 0, 0);
            if (r == 0 && bp == (char *)(back + 1) && back[0] == c) rt.push_back(c);
            if (fresh) ref_reiconv_handle_close(fresh);
        }
        res[e] = ranges(rep) + ranges(rt); ref_reiconv_handle_close(enc); ref_reiconv_handle_close(dec);
        fprintf(stderr, "%d: %zu %zu\n", e, rep.size(), rt.size());
    } };
    vector<thread> t; for (int i = 0; i < 8; i++) t.emplace_back(work); for (auto &x : t) x.join();
    FILE *f = fopen(argv[1], "wb"); for (auto &s : res) fwrite(s.data(), 1, s.size(), f); fclose(f);
}
