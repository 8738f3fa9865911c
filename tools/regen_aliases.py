#!/usr/bin/env python3
"""Rewrites lib/generated/aliases.h of a tree from the output of its genaliases tool, in the form gperf 3.1 gives it.

There is no gperf in this sandbox, so the perfect hash (same key positions and form as gperf's) is searched by perfect_hash.cpp.
Used once, for the fix commit that added the missing names; no check runs it.
usage: regen_aliases.py aliases.gperf old-aliases.h > ph.in; perfect_hash 6400 1600 1 300 < ph.in > ph.out;
       regen_aliases.py aliases.gperf old-aliases.h ph.out > new-aliases.h   (run with python3-vt: needs numpy)"""
import re, sys
import numpy as np
old = open(sys.argv[2]).read()
lines = open(sys.argv[1]).read().split('\n')
words = []  # (word, enum, line number)
for i, l in enumerate(lines, 1):
    m = re.match(r'(\S+), (ei_\w+)$', l)
    if m: words.append((m.group(1), m.group(2), i))
assert len({w for w, _, _ in words}) == len(words), 'duplicate names'
asso = [int(x) for x in re.search(r'asso_values\[\] =\s*\{([^}]*)\}', old).group(1).split(',')]
OFF = {5: 4, 1: 2}; N = len(asso)
M = np.zeros((len(words), N), dtype=np.int64); L = np.array([len(w) for w, _, _ in words])
for r, (w, _, _) in enumerate(words):
    for i in range(min(len(w), 10)): M[r, ord(w[i]) + OFF.get(i, 0)] += 1
    M[r, ord(w[-1])] += 1
used = M.any(axis=0); big = max(asso); a = np.array(asso); a[~used] = 0
for k in range(N):
    if used[k] and a[k] == big: a[k] = 0  # a character no word used before
if len(sys.argv) < 4:  # the input of perfect_hash.cpp (LIM VMAX seed seconds)
    print('%d\n%s\n%d\n%s' % (N, ' '.join(map(str, a)), len(words), '\n'.join(w for w, _, _ in words))); sys.exit()
a = np.array([int(x) for x in open(sys.argv[3]).read().split()]); h = L + M @ a
assert len(np.unique(h)) == len(h)
mx, mn = int(h.max()), int(h.min()); full = mx + 1
vals = [int(a[k]) if used[k] else full for k in range(N)]
order = sorted(range(len(words)), key=lambda r: h[r])
s = old
s = re.sub(r'#define TOTAL_KEYWORDS \d+', '#define TOTAL_KEYWORDS %d' % len(words), s)
s = re.sub(r'#define MIN_WORD_LENGTH \d+', '#define MIN_WORD_LENGTH %d' % L.min(), s)
s = re.sub(r'#define MAX_WORD_LENGTH \d+', '#define MAX_WORD_LENGTH %d' % L.max(), s)
s = re.sub(r'#define MIN_HASH_VALUE \d+', '#define MIN_HASH_VALUE %d' % mn, s)
s = re.sub(r'#define MAX_HASH_VALUE \d+', '#define MAX_HASH_VALUE %d' % mx, s)
s = re.sub(r'maximum key range = \d+', 'maximum key range = %d' % (mx - mn + 1), s)
rows = [', '.join('%4d' % v for v in vals[i:i + 10]) for i in range(0, N, 10)]
s = re.sub(r'(asso_values\[\] =\s*\{)[^}]*\}', lambda m: m.group(1) + '\n      ' + ',\n      '.join(rows) + '\n    }', s)
s = re.sub(r'(struct stringpool_t\s*\{\n).*?(\n  \};)', lambda m: m.group(1) + '\n'.join('    char stringpool_str%d[sizeof("%s")];' % (h[r], words[r][0]) for r in order) + m.group(2), s, count=1, flags=re.S)
s = re.sub(r'(stringpool_contents =\s*\{\n).*?(\n  \};)', lambda m: m.group(1) + ',\n'.join('    "%s"' % words[r][0] for r in order) + m.group(2), s, count=1, flags=re.S)
m = re.search(r'(struct alias aliases\[\] =\s*\{\n)(.*?)(\n  \};)', s, flags=re.S)
# gperf writes gaps as runs of {-1}: reproduce its layout from the old file's style.
out = []; col = [0]; idx = 0
def gap(n):
    r = []
    while n > 0:
        k = min(n, 9)
        r.append('    ' + ', '.join(['{-1}'] * k)); n -= k
    return r
ents = []
pos = 0
for r in order:
    if h[r] > pos: ents.append(',\n'.join(gap(int(h[r]) - pos)))
    ents.append('#line %d "lib/generated/aliases.gperf"\n    {(int)(size_t)&((struct stringpool_t *)0)->stringpool_str%d, %s}' % (words[r][2], h[r], words[r][1]))
    pos = int(h[r]) + 1
s = s[:m.start(2)] + ',\n'.join(ents) + s[m.end(2):]
sys.stdout.write(s)
