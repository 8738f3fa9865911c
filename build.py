"""Builds the library under test from /repo's current tree, in several variants, together with the check programs.

Everything goes to /verif/build, keyed by a hash of what it is made from, so that repeated runs on one tree are cheap
and a changed tree is always rebuilt."""
import hashlib, os, re, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

class BuildError(Exception):
    pass

def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode()); m.update(b'\0')
    return m.hexdigest()[:20]

def _tree_hash(*dirs):
    m = hashlib.sha256()
    for d in dirs:
        if os.path.isfile(d):
            m.update(open(d, 'rb').read()); continue
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(root, f)
                try: b = open(p, 'rb').read()
                except OSError: continue
                m.update(os.path.relpath(p, d).encode() + b'\0' + b + b'\0')
    return m.hexdigest()[:20]

VARIANTS = {
    # name: (CC, CXX, library flags, harness flags, link flags)
    'fast': ('gcc', 'g++', '-O2 -g1 -DNDEBUG', '-O1 -g1 -DVP_INTERPOSE', ''),
    'asan': ('gcc', 'g++', '-O1 -g1 -fsanitize=address -fno-omit-frame-pointer',
             '-O1 -g1 -fsanitize=address -DVP_ASAN_HOOKS', '-fsanitize=address'),
    'ubsan': ('gcc', 'g++', '-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=all',
              '-O1 -g1 -fsanitize=address -DVP_ASAN_HOOKS', '-fsanitize=address,undefined'),
    'tsan': ('gcc', 'g++', '-O1 -g1 -fsanitize=thread', '-O1 -g1 -fsanitize=thread', '-fsanitize=thread'),
    'fuzz': ('clang', 'clang++', '-O1 -g1 -fsanitize=fuzzer-no-link,address,undefined -fno-sanitize=function -fno-sanitize-recover=all',
             '-O1 -g1 -fsanitize=fuzzer-no-link,address -DVP_FUZZ', '-fsanitize=fuzzer,address,undefined'),
}

def run(cmd, what):
    r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError('%s failed:\n%s\n%s' % (what, cmd, r.stdout[-4000:]))

_locks = {}
_ll = threading.Lock()
def once(path, make):
    """Makes path with make(tmp) unless it is there."""
    with _ll: l = _locks.setdefault(path, threading.Lock())
    with l:
        if not os.path.exists(path):
            os.makedirs(os.path.dirname(path), exist_ok=True)
            root, ext = os.path.splitext(path)
            tmp = '%s.%d.tmp%s' % (root, os.getpid(), ext)
            make(tmp); os.rename(tmp, path)
    return path

class Tree:
    """The project at REPO: sources, version and configured headers."""
    def __init__(self):
        top = open(REPO + '/CMakeLists.txt').read()
        m = re.search(r'project\(cppp-reiconv\s+VERSION\s+(\d+)\.(\d+)\.(\d+)', top)
        v = m.groups() if m else ('3', '0', '0')
        self.version = v
        m = re.search(r'\nset\(SOURCES([^)]*)\)', top)
        src = re.findall(r'"([^"]*)"', m.group(1).replace('${CMAKE_CURRENT_SOURCE_DIR}', REPO)) if m else \
            [REPO + '/lib/iconv.c', REPO + '/lib/reiconv.cpp']
        # The locale query needs cppp-platform, which is not part of this repository: C21 builds it on its own.
        self.sources = [s for s in src if not os.path.basename(s).startswith('locale_charset')]
        self.hash = _h(_tree_hash(REPO + '/lib'), _tree_hash(REPO + '/include'), v, *self.sources)
        self.inc = os.path.join(BUILD, 'inc-' + _h(self.hash, open(VERIF + '/data/constants.txt').read(), open(__file__).read()))
        once(self.inc, self._headers)
        self.defs = '-DVERSION_MAJOR=%s -DVERSION_MINOR=%s -DVERSION_PATCH=%s' % v
        self.incs = '-I%s/lib -I%s' % (REPO, self.inc)

    def _headers(self, out):
        def conf(src, dst, **kw):
            t = open(REPO + '/include/' + src).read()
            kw.setdefault('CPPP_API', '')
            kw.update(PROJECT_VERSION='.'.join(self.version), PROJECT_VERSION_MAJOR=self.version[0], PROJECT_VERSION_MINOR=self.version[1], PROJECT_VERSION_PATCH=self.version[2])
            t = re.sub(r'@(\w+)@', lambda m: kw.get(m.group(1), ''), t)
            p = os.path.join(out, dst); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, 'w').write(t)
        conf('cppp/reiconv.h.in', 'cppp/reiconv.h'); conf('cppp/reiconv.hpp.in', 'cppp/reiconv.hpp'); conf('iconv.h.in', 'iconv.h')
        for x in ('h', 'hpp'):
            code = open(REPO + '/lib/generated/indexes.%s.shippet' % x).read().strip()
            conf('cppp/encodings/reiconv.%s.in' % x, 'cppp/encodings/reiconv.' + x, INDEXES_CODE=code)
        # The public constants as data: {name, frozen encoding or "", C++ value, C value}, MISSING where a header lacks it.
        strip = lambda f: re.sub(r'//[^\n]*|/\*.*?\*/', '', open(os.path.join(out, f)).read(), flags=re.S)
        have_c = re.findall(r'\bENCODING_(\w+)\s*=', strip('cppp/encodings/reiconv.h')); have_p = re.findall(r'\b(\w+)\s*=', strip('cppp/encodings/reiconv.hpp'))
        frozen = dict(l.split() for l in open(VERIF + '/data/constants.txt'))
        with open(os.path.join(out, 'vp_constants.inc'), 'w') as f:
            for n in sorted(set(have_c) | set(have_p) | set(frozen)):
                f.write('{"%s", "%s", %s, %s},\n' % (n, frozen.get(n, ''), '(int)reiconv::Encodings::' + n if n in have_p else 'MISSING', '(int)ENCODING_' + n if n in have_c else 'MISSING'))

    def lib(self, variant):
        """Object files of the library in a variant."""
        cc, cxx, lf, hf, ld = VARIANTS[variant]
        def one(s):
            o = os.path.join(BUILD, 'lib-%s-%s-%s.o' % (variant, _h(self.hash, lf, s), os.path.basename(s)))
            c = '%s -std=gnu17' % cc if s.endswith('.c') else '%s -std=gnu++20' % cxx
            return once(o, lambda t: run('%s -w %s %s %s -c %s -o %s' % (c, lf, self.defs, self.incs, s, t), 'compiling ' + s))
        return [lambda s=s: one(s) for s in self.sources]

def ref():
    h = _h(_tree_hash(VERIF + '/ref'), open(VERIF + '/src/ref_rename.h').read())
    o = os.path.join(BUILD, 'ref-%s.o' % h)
    return once(o, lambda t: run('gcc -std=c17 -w -O2 -DNDEBUG -include %s/src/ref_rename.h -DVERSION_MAJOR=3 -DVERSION_MINOR=0 -DVERSION_PATCH=0 -I%s/ref/lib -I%s/ref/include -c %s/ref/lib/iconv.c -o %s' % (VERIF, VERIF, VERIF, VERIF, t), 'compiling the reference'))

COMMON = ['engine.cpp', 'harness.cpp', 'mem.cpp']

def program(tree, variant, sources, libs=''):
    """Links the check sources against the library in a variant; returns the program's path."""
    cc, cxx, lf, hf, ld = VARIANTS[variant]
    hh = _h(*[open(os.path.join(VERIF, 'src', f)).read() for f in sorted(os.listdir(VERIF + '/src')) if f.endswith(('.h', '.hpp'))])
    def obj(f):
        p = os.path.join(VERIF, 'src', f)
        o = os.path.join(BUILD, 'chk-%s-%s-%s.o' % (variant, _h(open(p).read(), hh, hf, _tree_hash(tree.inc)), f))
        return once(o, lambda t: run('%s -std=c++20 -w %s %s -I%s/src -I%s -c %s -o %s' % (cxx, hf, tree.defs, VERIF, tree.inc, p, t), 'compiling ' + f))
    tasks = [ref] + tree.lib(variant) + [lambda f=f: obj(f) for f in list(sources) + COMMON]
    with ThreadPoolExecutor(8) as ex: objs = list(ex.map(lambda f: f(), tasks))
    exe = os.path.join(BUILD, 'bin-%s-%s' % (variant, _h(ld, libs, *objs)))
    return once(exe, lambda t: run('%s %s -rdynamic -o %s %s %s -lpthread' % (cxx, ld, t, ' '.join(objs), libs), 'linking'))
