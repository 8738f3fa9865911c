// Property-based testing engine and shared harness for cppp-reiconv.
#pragma once
#include <cerrno>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <string_view>
#include <unordered_map>
#include <vector>

namespace vp {

typedef std::string bytes;
typedef std::vector<uint32_t> text; // Unicode code points

// ---------------------------------------------------------------- engine
struct Fail { std::string msg; };
struct Discard {};
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::string hex(const bytes &b, size_t max = 160);
std::string show(const text &t, size_t max = 60);

// A source of choices. Every random decision of a case is one draw; the recorded draws replay and shrink the case.
struct Src {
    uint64_t st = 0;                       // PRNG state (random mode)
    const uint32_t *rep = nullptr;         // replay mode
    size_t nrep = 0;
    const uint8_t *fz = nullptr;           // fuzzer mode
    size_t nfz = 0;
    size_t pos = 0;
    uint32_t *log = nullptr;               // recorded draws (shared memory)
    volatile uint32_t *nlog = nullptr;
    uint32_t caplog = 0;
    uint32_t draw(uint32_t n);             // [0,n)
    uint32_t range(uint32_t lo, uint32_t hi) { return lo + draw(hi - lo + 1); } // inclusive
    bool flip(uint32_t num, uint32_t den) { return draw(den) >= den - num; }    // 0 means false
    uint32_t small(uint32_t max);          // skewed towards small values, [0,max]
    template <class V> auto &pick(V &v) { return v[draw((uint32_t)v.size())]; }
};

// Statistics of the running worker.
void label(const std::string &l, uint64_t n = 1);
void nontrivial(uint64_t hash);
void evals(uint64_t n);             // additional evaluations inside one case (sweeps)
void sample(const std::string &s);  // kept for the first few cases
uint64_t hash_bytes(const void *p, size_t n, uint64_t seed = 0);
inline uint64_t hash_str(const std::string &s, uint64_t seed = 0) { return hash_bytes(s.data(), s.size(), seed); }
bool thorough();
uint64_t base_seed();

typedef void (*CaseFn)(Src &);
typedef void (*SweepFn)(size_t);
typedef size_t (*SweepN)();
struct Job { std::string name; CaseFn cf; SweepFn sf; SweepN sn; };
std::vector<Job> &jobs();
struct Reg {
    Reg(const char *n, CaseFn f) { jobs().push_back({n, f, nullptr, nullptr}); }
    Reg(const char *n, SweepN cnt, SweepFn f) { jobs().push_back({n, nullptr, f, cnt}); }
};
#define CASE(id, jobname) static void id(vp::Src &); static vp::Reg reg_##id(jobname, id); static void id(vp::Src &S)
#define SWEEP(id, jobname, countexpr) static void id(size_t); static size_t cnt_##id() { return countexpr; } \
    static vp::Reg reg_##id(jobname, cnt_##id, id); static void id(size_t I)

// ---------------------------------------------------------------- the library under test, and the frozen reference
struct Lib {
    const char *name;
    size_t (*canon)(const char *, char *);
    int (*lookup)(const char *);
    int (*lookup_cp)(int);
    void *(*open)(int from, int to, int flags);
    void *(*open_name)(const char *from, const char *to, int flags);
    void *(*open_cp)(int from, int to, int flags);
    void *(*open_iconv)(const char *to, const char *from);
    size_t (*iconv)(void *, char **, size_t *, char **, size_t *);
    int (*close)(void *);
    size_t (*result_size)(void *, const char *, size_t);
    int (*static_size)(void *, const char *, size_t, char *, size_t);
    int (*convert)(void *, const char *, size_t, char **, size_t *);
};
extern Lib SUT, REF;

struct Range { uint32_t lo, hi; uint64_t before; };
struct RangeSet { // sorted ranges of code points with indexed access
    std::vector<Range> r;
    uint64_t n = 0;
    bool has(uint32_t c) const;
    uint32_t at(uint64_t i) const;
    uint64_t index_of(uint32_t c) const; // index of the first element >= c
};

struct Enc {
    std::string id;                  // internal id in the frozen list, e.g. "iso2022_jp"
    std::vector<std::string> names;  // canonical names and aliases (frozen)
    int idx;                         // position in the frozen list = index in REF
    int sut;                         // index in the library under test
    RangeSet rep;                    // code points the encoding contains (frozen)
    RangeSet rt;                     // those that survive encode+decode singly (frozen)
    std::vector<uint32_t> blocks;    // distinct (cp>>8) of rep
    int unit;                        // discard unit
    bool has_fffd;
    bool stateful;                   // shift-based
    bool composing;                  // decoder holds back characters or encoder composes
    bool bom;                        // byte-order-mark sensitive decoder
    bool full;                       // full-Unicode encoding
    std::vector<bytes> toks;         // interesting byte fragments
    std::vector<text> combos;        // interesting character sequences
    std::map<uint64_t, bool> pairs;  // base and combining character that are encodable only together
    // Whether the encoding has c after the given text (a few characters exist only in combination).
    bool has(const text &before, uint32_t c) const;
    std::vector<uint32_t> reprs;     // representative characters, one per component charset
};
extern std::vector<Enc> E;
Enc &enc(const char *id);
extern int PIV; // index in E of UCS-4-INTERNAL
void load_encodings();

// ---------------------------------------------------------------- calls
struct Call { size_t ret; int err; size_t used; bytes out; };
// One conversion call on exactly sized, guarded buffers, with accounting checks (SUT only).
Call call(Lib &L, void *cd, const char *in, size_t n, size_t cap, bool null_in = false);

struct Result {
    bytes out;
    size_t count = 0;    // sum of non-negative return values
    int status = 0;      // 0, EILSEQ, EINVAL
    size_t consumed = 0;
    int flush = 0;       // 0 = flushed fine, EILSEQ = flush failed, -1 = not flushed
    bool operator==(const Result &o) const { return out == o.out && count == o.count && status == o.status && consumed == o.consumed && flush == o.flush; }
    bool operator!=(const Result &o) const { return !(*this == o); }
};
std::string show(const Result &r);
void *xopen(Lib &L, const Enc &f, const Enc &t, int flags); // fails the case when the open fails
struct Cd { // RAII descriptor
    Lib &L; void *h;
    Cd(Lib &l, const Enc &f, const Enc &t, int flags = 0) : L(l), h(xopen(l, f, t, flags)) {}
    ~Cd() { if (h) L.close(h); }
    Cd(const Cd &) = delete;
    operator void *() const { return h; }
};
size_t ample(size_t n); // output room that always suffices for n input bytes
// Whole-input conversion in one call with ample room, then a flush if the call consumed everything.
Result run(Lib &L, void *cd, const bytes &in, bool flush = true);
Result run(Lib &L, const Enc &f, const Enc &t, int flags, const bytes &in, bool flush = true);
bytes pack(const text &t);           // code points -> UCS-4-INTERNAL bytes
text unpack(const bytes &b);
bytes ref_encode(const Enc &e, const text &t, bool flush = true); // REF, discarding what e lacks
void same(const char *what, const Result &got, const Result &want);

// ---------------------------------------------------------------- generators
text gen_text(Src &S, Enc &e, size_t maxlen);       // text over e's repertoire
text gen_text_rt(Src &S, Enc &e, size_t maxlen);    // text over e's round-trip repertoire
text gen_any(Src &S, Enc &e, size_t maxlen);        // mixture of what e has, lacks, tags, non-characters
bytes gen_bytes(Src &S, Enc &e, size_t maxlen);     // valid, mutated or raw bytes in encoding e
bytes gen_valid(Src &S, Enc &e, size_t maxlen);     // bytes e decodes without error
Enc &gen_enc(Src &S);                               // stateful and multibyte encodings get more weight
size_t gen_len(Src &S, size_t max);                 // skewed length
bytes mutate(Src &S, Enc &e, bytes b);
uint32_t any_cp(Src &S);

// ---------------------------------------------------------------- allocation tracking / fault injection
namespace mem {
extern bool available;             // tracking works in this build variant
extern bool can_fail;              // fault injection works in this build variant
void enter();                      // start of a library call
void leave();
long live();                       // blocks allocated inside library calls and not freed yet
long allocs();                     // allocations made inside library calls since reset
void reset();
void set_fail(long nth, bool all_after); // fail the nth (1-based) allocation inside library calls; 0 = off
bool failed();                     // whether a failure was injected
}
struct InLib { InLib() { mem::enter(); } ~InLib() { mem::leave(); } };

} // namespace vp
