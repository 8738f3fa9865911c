// Streaming with arbitrary cuts and output capacities, as a careful caller of the interface does it.
#pragma once
#include "common.hpp"
namespace vp {
struct Plan { // how to cut: next() gives the size of the next input piece and of the next output room
    std::function<size_t()> piece, room;
};
// Feeds all of in; unconsumed bytes are carried over. The result has the same meaning as run()'s.
// Every call returned success if clean is still true at the end (only then are all substitutions counted).
inline Result stream(Lib &L, void *cd, const bytes &in, Plan p, bool *clean = nullptr, bool flush = true) {
    Result R; size_t fed = 0, pos = 0; R.flush = -1; bool lastzero = false; bool ok = true; size_t extra = 0; uint64_t calls = 0;
    const size_t limit = 200 + 40 * in.size();
    while (true) {
        if (fed < in.size()) { size_t k = p.piece(); if (!k && lastzero) k = 1; lastzero = !k; fed = std::min(in.size(), fed + k); }
        bool starved = false;
        while (!starved) {
            size_t room = p.room() + extra;
            if (++calls > limit) fail("no progress: %llu calls for %zu input bytes", (unsigned long long)calls, in.size());
            Call c = call(L, cd, in.data() + pos, fed - pos, room);
            pos += c.used; R.out += c.out;
            if (c.ret != (size_t)-1) { R.count += c.ret; starved = true; extra = 0; break; }
            ok = false;
            if (c.err == E2BIG) { if (c.used || c.out.size()) extra = 0; else extra += 1 + extra / 2; if (extra > 200) fail("full-buffer error with %zu bytes of room, no progress possible", room); continue; }
            if (c.err == EILSEQ) { R.status = EILSEQ; R.consumed = pos; if (clean) *clean = ok; return R; }
            if (c.err == EINVAL) { starved = true; extra = 0; }
        }
        if (fed == in.size()) { if (pos < fed) { R.status = EINVAL; R.consumed = pos; if (clean) *clean = ok; return R; } break; }
    }
    R.consumed = pos;
    if (flush) {
        extra = 0;
        for (int k = 0;; k++) {
            size_t room = p.room() + extra;
            Call c = call(L, cd, nullptr, 0, room, true);
            R.out += c.out;
            if (c.ret != (size_t)-1) { R.count += c.ret; R.flush = 0; break; }
            ok = false;
            if (c.err == E2BIG) { extra += 1; if (extra > 200) fail("reset: full-buffer error with %zu bytes of room", room); continue; }
            R.flush = c.err; break;
        }
    }
    if (clean) *clean = ok;
    return R;
}
} // namespace vp
