/* Uninitialised reads: random call sequences on the C part of the library under MemorySanitizer.
 * Usage: msan COUNT SEED [INDEX]   (with INDEX, runs that case only, and says what it does) */
#include <cppp/reiconv.h>
#include <errno.h>
#include <sanitizer/msan_interface.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static uint64_t st; static int verbose; static unsigned long nontrivial;
static uint32_t rnd(uint32_t n) { uint64_t z = (st += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; z ^= z >> 31; return (uint32_t)((z >> 32) * n >> 32); }
static unsigned char seen[1 << 23]; /* inputs seen so far, by hash */
static int encs[512], nenc, piv;
static void dirty_stack(void) { volatile char b[12000]; __msan_allocated_memory(b, sizeof b); }
static uint32_t cp(void) { switch (rnd(9)) { case 0: return 0x20 + rnd(95); case 1: return rnd(256); case 2: return rnd(0x800); case 3: return rnd(0xD800); case 4: return 0x4E00 + rnd(0x5200); case 5: return 0x3040 + rnd(0xC0); case 6: return 0xAC00 + rnd(0x2BA4); case 7: return 0x10000 + rnd(0x20000); default: return 0xE0000 + rnd(0x80); } }
static void bad(const char *what, long at) { printf("UNINITIALISED %s at %ld\n", what, at); fflush(stdout); abort(); }
static void chk(const char *what, const void *p, size_t n) { if (n) { intptr_t k = __msan_test_shadow(p, n); if (k >= 0) bad(what, (long)k); } }
static size_t conv(reiconv_t cd, const char *in, size_t n, size_t cap, size_t *used, char *out) {
    char *ib = malloc(n ? n : 1), *ob = malloc(cap ? cap : 1), *ip = ib, *op = ob; size_t il = n, ol = cap; if (n) memcpy(ib, in, n);
    dirty_stack(); size_t r = in ? reiconv_iconv(cd, &ip, &il, &op, &ol) : reiconv_iconv(cd, NULL, NULL, &op, &ol);
    chk("return value", &r, sizeof r); chk("output pointer", &op, sizeof op); chk("counts", &ol, sizeof ol); chk("input count", &il, sizeof il); chk("output", ob, cap - ol);
    if (verbose) printf("conversion of %zu bytes, room %zu: returns %zd, consumed %zu, wrote %zu\n", n, cap, (ssize_t)r, n - il, cap - ol);
    size_t got = cap - ol; if (out) memcpy(out, ob, got); if (used) *used = n - il; free(ib); free(ob); return got;
}
int main(int argc, char **argv) {
    long count = argc > 1 ? atol(argv[1]) : 1000, only = argc > 3 ? atol(argv[3]) : -1; uint64_t seed = argc > 2 ? strtoull(argv[2], 0, 10) : 1;
    { char line[512], *id, *nm; char path[4096]; snprintf(path, sizeof path, "%s/aliases.txt", getenv("VP_DATA")); FILE *f = fopen(path, "r"); if (!f) return 2; while (fgets(line, sizeof line, f)) { id = strtok(line, " \n"); nm = strtok(NULL, " \n"); if (!id || !nm) continue; int k = reiconv_lookup_from_name(nm); if (k >= 0 && nenc < 512) encs[nenc++] = k; } fclose(f); piv = reiconv_lookup_from_name("UCS4INTERNAL"); if (piv < 0) piv = reiconv_lookup_from_name("UCS-4-INTERNAL"); if (piv < 0 || nenc < 100) return 2; }
    for (long c = only >= 0 ? only : 0; c < (only >= 0 ? only + 1 : count); c++) {
        st = seed * 0x9E3779B97F4A7C15ull + (uint64_t)c * 0xD1342543DE82EF95ull; verbose = only >= 0; fprintf(stderr, "%ld\n", c); if (!verbose) { fflush(stderr); }
        int a = encs[rnd(nenc)], b = encs[rnd(nenc)], fl = rnd(3) == 0; if (verbose) printf("encodings %d to %d, flags %d\n", a, b, fl);
        uint32_t t[40]; size_t n = rnd(40); uint32_t base = cp(); for (size_t i = 0; i < n; i++) t[i] = rnd(2) ? base + rnd(64) : cp();
        /* Bytes in encoding a, partly damaged. */
        char in[2000]; reiconv_t e = reiconv_open_from_index(piv, a, REICONV_DISCARD_ILSEQ); if (e == (reiconv_t)-1) return 2; size_t used, len = conv(e, (char *)t, n * 4, 1200, &used, in); len += conv(e, NULL, 0, 64, NULL, in + len); reiconv_handle_close(e);
        for (int m = (int)rnd(4); m > 0 && len; m--) { if (rnd(3)) in[rnd((uint32_t)len)] = (char)rnd(256); else len = rnd((uint32_t)len + 1); }
        reiconv_t cd = reiconv_open_from_index(a, b, (enum ConvertFlag)fl); size_t pos = 0; int ops = 1 + (int)rnd(8); if (len > 1) { uint64_t h = (uint64_t)a * 512 + b; for (size_t i = 0; i < len; i++) h = (h ^ (unsigned char)in[i]) * 0x100000001B3ull; h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h >>= 38; if (!(seen[h >> 3] >> (h & 7) & 1)) { seen[h >> 3] |= (unsigned char)(1 << (h & 7)); nontrivial++; } }
        for (int k = 0; k < ops; k++) switch (rnd(8)) {
            case 0: conv(cd, NULL, 0, rnd(2) ? 64 : rnd(8), NULL, NULL); break;
            case 1: { char *ib = malloc(len ? len : 1); memcpy(ib, in, len); dirty_stack(); size_t m = reiconv_result_size(cd, ib, len); chk("predicted size", &m, sizeof m); if (m != (size_t)-1) { char *ob = malloc(m ? m : 1); dirty_stack(); int r = reiconv_convert_static_size(cd, ib, len, ob, m); chk("result", &r, sizeof r); if (r == 0) chk("fixed-size output", ob, m); free(ob); } free(ib); break; }
            case 2: { char *ib = malloc(len ? len : 1), *p = NULL; memcpy(ib, in, len); size_t m = 0; dirty_stack(); int r = reiconv_convert(cd, ib, len, &p, &m); chk("result", &r, sizeof r); if (r == 0) { chk("length", &m, sizeof m); chk("allocated output", p, m); } free(p); free(ib); break; }
            case 3: { char nm[200]; size_t l = rnd(60); for (size_t i = 0; i < l; i++) nm[i] = (char)(1 + rnd(255)); if (rnd(2)) { strcpy(nm, rnd(2) ? "ISO-8859-1//IGNORE" : "utf-8"); } else nm[l] = 0; char *h = strdup(nm); dirty_stack(); int r = reiconv_lookup_from_name(h); chk("lookup", &r, sizeof r); reiconv_t x = reiconv_open(h, "UTF-8"); chk("descriptor", &x, sizeof x); if (x != (reiconv_t)-1) { conv(x, in, len, 100, &used, NULL); reiconv_handle_close(x); } int r2 = reiconv_lookup_from_codepage((int)rnd(70000)); chk("lookup", &r2, sizeof r2); free(h); break; }
            default: { size_t m = rnd(2) ? len - pos : rnd((uint32_t)(len - pos) + 1); conv(cd, in + pos, m, rnd(2) ? 1000 : rnd(16), &used, NULL); pos += used; if (used == 0 && pos < len && rnd(2)) pos++; if (pos >= len) pos = 0; } }
        reiconv_handle_close(cd);
    }
    printf("ok %ld cases, %lu nontrivial\n", count, nontrivial);
    return 0;
}
