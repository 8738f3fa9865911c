"""Checks that drive a program of their own: MemorySanitizer, libFuzzer, the locale query, the generator tools."""
import glob, os, re, shutil, subprocess, tempfile, time
import build
from build import VERIF, REPO, BUILD, once, run as sh, _h
import concurrent.futures as cf

def result(job, variant, cases, nontrivial, samples, labels=None, wall=0.0, evaluations=None):
    return {'job': job, 'variant': variant, 'cases': cases, 'evaluations': evaluations if evaluations is not None else cases, 'distinct_nontrivial': nontrivial,
            'labels': labels or {}, 'samples': samples, 'wall_s': round(wall, 2), 'violation': '', 'note': ''}

def replay_file(prop, name, text):
    p = os.path.join(VERIF, 'replays', '%s-%s.txt' % (prop, name)); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, 'w').write(text); return p

def msan_prog(tree):
    src = VERIF + '/src/msan.c'; cs = [s for s in tree.sources if s.endswith('.c')]
    exe = os.path.join(BUILD, 'msan-' + _h(tree.hash, open(src).read()))
    return once(exe, lambda t: sh('clang -std=gnu17 -w -O1 -g1 -fsanitize=memory -fno-omit-frame-pointer %s %s -o %s %s %s' % (tree.defs, tree.incs, t, src, ' '.join(cs)), 'building the MemorySanitizer driver'))

def msan(out, tree, prop, tier, seed):
    t0 = time.time(); exe = msan_prog(tree); per = 40000 if tier == 'quick' else 3000000
    env = dict(os.environ, VP_DATA=VERIF + '/data', MSAN_OPTIONS='exitcode=95:halt_on_error=1')
    def one(k):
        try: r = subprocess.run([exe, str(per), str(seed * 1000 + k)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=300 if tier == 'quick' else 7200)
        except subprocess.TimeoutExpired as e: return k, None, '', (e.stderr or b'')[-200:].decode('latin1')
        return k, r.returncode, r.stdout, r.stderr
    with cf.ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, range(8)))
    total = nt = 0
    for k, rc, so, se in rs:
        if rc == 0:
            m = re.search(r'ok (\d+) cases, (\d+) nontrivial', so); total += int(m.group(1)); nt += int(m.group(2)); continue
        idx = [l for l in se.splitlines() if l.strip().isdigit()]; i = idx[-1].strip() if idx else '0'
        rp = replay_file(prop, 'msan', 'MemorySanitizer (or the case itself) stopped case %s of seed %d.\nReplay: VP_DATA=/verif/data %s %s %d %s\n\n%s\n%s' % (i, seed * 1000 + k, exe, per, seed * 1000 + k, i, so[-1500:], '\n'.join(l for l in se.splitlines() if not l.strip().isdigit())[:4000]))
        out.violations.append((rp, 'an uninitialised value, crash or hang under MemorySanitizer, see the replay file')); return
    print('[msan] ok: %d cases, %d non-trivial, %.1f s' % (total, nt, time.time() - t0))
    out.results.append(result('c19_msan', 'msan', total, nt, ['random calls on random pairs, seeds %d..%d' % (seed * 1000, seed * 1000 + 7)], wall=time.time() - t0))

def fuzz(out, tree, prop, tier, seed):
    """Coverage-guided search (thorough only): libFuzzer drives the choices of c19_calls."""
    if tier == 'quick': return
    t0 = time.time(); exe = build.program(tree, 'fuzz', ['c19.cpp']); d = tempfile.mkdtemp(prefix='vpfuzz')
    try:
        def one(k):
            c = os.path.join(d, 'c'); os.makedirs(c, exist_ok=True)
            return subprocess.run([exe, c, '-seed=%d' % (seed * 100 + k), '-max_total_time=1800', '-max_len=600', '-timeout=60', '-rss_limit_mb=3000', '-artifact_prefix=%s/a%d-' % (d, k), '-reload=1', '-verbosity=1', '-print_final_stats=1'],
                                  env=dict(os.environ, VP_DATA=VERIF + '/data', VP_TABLES='', ASAN_OPTIONS='detect_leaks=0'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        with cf.ThreadPoolExecutor(7) as ex: rs = list(ex.map(one, range(7)))
        runs = sum(int(m) for r in rs for m in re.findall(r'stat::number_of_executed_units:\s*(\d+)', r.stdout)); corpus = len(os.listdir(os.path.join(d, 'c')))
        for r in rs:
            if r.returncode != 0:
                arts = sorted(glob.glob(d + '/a*')); keep = ''
                if arts: keep = os.path.join(VERIF, 'replays', prop + '-fuzz-input'); shutil.copy(arts[0], keep)
                rp = replay_file(prop, 'fuzz', 'libFuzzer stopped. Replay: VP_DATA=/verif/data %s %s\n\n%s' % (exe, keep, r.stdout[-4000:]))
                out.violations.append((rp, 'libFuzzer found a failure, see the replay file')); return
        print('[fuzz] ok: %d runs, corpus %d, %.0f s' % (runs, corpus, time.time() - t0))
        out.results.append(result('c19_fuzz', 'fuzz', runs, min(runs, corpus), ['coverage-guided choices of c19_calls; non-trivial = inputs that reached new coverage'], wall=time.time() - t0))
    finally: shutil.rmtree(d, ignore_errors=True)

# --- C21: the locale query, per platform configuration -------------------------------------------------------------
PLATFORM = ('windows', 'cygwin', 'macos', 'beos', 'haiku', 'android', 'freebsd')
LOC_CONFIGS = {  # name: (platforms, extra defines, kind)
    'glibc': ((), '-DHAVE_LANGINFO_CODESET=1', 'langinfo'),
    'env': ((), '', 'env'),
    'freebsd-env': (('freebsd',), '', 'env'),
    'haiku': (('haiku',), '-DHAVE_LANGINFO_CODESET=1', 'utf8'),
    'beos': (('beos',), '', 'utf8'),
    'android': (('android',), '', 'utf8'),
    'windows': (('windows',), '', 'cp'),
    'windows-console': (('windows',), '-D_CONSOLE', 'cp'),
    'cygwin': (('windows', 'cygwin'), '', 'cp'),
    'cygwin-langinfo': (('windows', 'cygwin'), '-DHAVE_LANGINFO_CODESET=1', 'langinfo'),
}

def canon(n): return n.upper().replace("-", "").replace("_", "")

def aliases():
    """Frozen names: normalised name -> encoding, and encoding -> names."""
    by, names = {}, {}
    for l in open(VERIF + '/data/aliases.txt'):
        w = l.split(); names[w[0]] = w[1:]
        for n in w[1:]: by[canon(n)] = w[0]
    return by, names

def loc_prog(tree, cfg):
    plats, defs, kind = LOC_CONFIGS[cfg]; src = VERIF + '/src/c21.cpp'
    stub = os.path.join(BUILD, 'plat-' + _h(cfg, 1))
    def mk(t):
        os.makedirs(t + '/cppp')
        open(t + '/cppp/cppp-platform.h', 'w').write('#pragma once\n' + ''.join('#define __has_%s__ %d\n' % (p, p in plats) for p in PLATFORM + ('linux', 'unix')))
        w = '#pragma once\ntypedef unsigned UINT;\n#ifdef __cplusplus\nextern "C" {\n#endif\nUINT GetACP(void);\nUINT GetConsoleOutputCP(void);\n#ifdef __cplusplus\n}\n#endif\n'
        open(t + '/Windows.h', 'w').write(w); open(t + '/windows.h', 'w').write(w)
    once(stub, mk)
    top = open(REPO + '/CMakeLists.txt').read()
    ls = [s for s in re.findall(r'"([^"]*)"', top.replace('${CMAKE_CURRENT_SOURCE_DIR}', REPO)) if os.path.basename(s).startswith('locale_charset') and os.path.exists(s)] or [REPO + '/lib/locale_charset.c', REPO + '/lib/locale_charset.cpp']
    objs = []
    for s in tree.sources + ls + [src]:
        loc = s in ls
        o = os.path.join(BUILD, 'loc-%s-%s.o' % (_h(tree.hash, s, open(s).read(), stub if loc else '', defs if loc else ''), os.path.basename(s)))
        cc = 'gcc -std=gnu17' if s.endswith('.c') else 'g++ -std=gnu++20'
        objs.append(once(o, lambda t, s=s, cc=cc, loc=loc: sh('%s -w -O1 %s %s %s %s -c %s -o %s' % (cc, '-fsanitize=address,undefined -fno-sanitize-recover=all' if loc else '', ('-I%s %s' % (stub, defs)) if loc else '', tree.defs, tree.incs, s, t), 'compiling ' + s)))
    exe = os.path.join(BUILD, 'locbin-' + _h(*objs))
    return once(exe, lambda t: sh('g++ -fsanitize=address,undefined -o %s %s' % (t, ' '.join(objs)), 'linking the locale driver'))

def locales():
    """Locales compiled here with every charmap of the system (LC_CTYPE only)."""
    d = os.path.join(BUILD, 'locales-1')
    def mk(t):
        os.makedirs(t)
        cats = 'LC_CTYPE LC_COLLATE LC_MONETARY LC_NUMERIC LC_TIME LC_MESSAGES LC_PAPER LC_NAME LC_ADDRESS LC_TELEPHONE LC_MEASUREMENT LC_IDENTIFICATION'.split()
        open(t + '/min', 'w').write('comment_char %\nescape_char /\n' + ''.join('%s\ncopy "POSIX"\nEND %s\n' % (c, c) for c in cats))
        def one(m):
            try: subprocess.run(['localedef', '-c', '-i', t + '/min', '-f', m, '%s/xx_XX.%s' % (t, m)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
            except Exception: pass
        ms = sorted(os.path.basename(f)[:-3] for f in glob.glob('/usr/share/i18n/charmaps/*.gz'))
        if ms and shutil.which('localedef'):
            with cf.ThreadPoolExecutor(8) as ex: list(ex.map(one, ms))
    once(d, mk)
    return d, sorted(os.path.basename(p)[6:] for p in glob.glob(d + '/xx_XX.*') if os.path.exists(p + '/LC_CTYPE'))

def locale(out, tree, prop, tier, seed):
    import random
    by, names = aliases(); allnames = sorted(by)
    fbsd = dict(l.split() for l in open(VERIF + '/data/freebsd_locales.txt'))
    wcp = {int(l.split()[0]): l.split()[1] for l in open(VERIF + '/data/windows_codepages.txt')}
    locdir, charmaps = locales()
    # A charmap's own name for itself, as the C library reports it.
    special = {'NF_Z_62-010_1973': 'NF_Z_62-010_(1973)'}
    locs = {'C': 'ANSI_X3.4-1968', 'POSIX': 'ANSI_X3.4-1968', 'C.utf8': 'UTF-8'}
    env = {k: v for k, v in os.environ.items() if not k.startswith(('LC_', 'LANG'))}; env['LOCPATH'] = locdir; env['ASAN_OPTIONS'] = 'detect_leaks=0'
    def run(exe, cmds):
        try: r = subprocess.run([exe], input='\n'.join(cmds) + '\n', env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=600)
        except subprocess.TimeoutExpired: return None, 'the driver hangs'
        if r.returncode != 0: return r.stdout.splitlines(), 'the driver ended with code %d: %s' % (r.returncode, r.stderr[-1500:])
        return r.stdout.splitlines(), ''
    def want_name(n):  # what a character set name has to look like in the answer
        return ('enc', by[canon(n)]) if canon(n) in by else ('text', n)
    def model(kind, cfg, st):
        if kind == 'utf8': return ('enc', 'utf8')
        if kind == 'langinfo': return want_name(st['charset'])
        if kind == 'cp':
            e = wcp.get(st['cp'])
            if e is None: return ('any',)
            return ('other',) if e == '-' else ('enc', e)
        loc = st['env'].get('LC_ALL') or st['env'].get('LC_CTYPE') or st['env'].get('LANG') or st['loc']
        if cfg == 'freebsd-env' and loc in fbsd: return want_name(fbsd[loc])
        if '.' not in loc: return ('usable',)
        c = loc.split('.', 1)[1].split('@', 1)[0]
        return want_name(c) if c else ('usable',)
    rnd = random.Random(seed * 7919 + 21)
    def locname(cfg):
        base = rnd.choice(['en_US', 'de_DE', 'ja_JP', 'zh_CN', 'C', 'x', 'sr_RS', 'en', '', 'a' * rnd.randint(1, 40)])
        r = rnd.random()
        if r < 0.08: return rnd.choice(['C', 'POSIX', base or 'C'])
        if cfg == 'freebsd-env' and r < 0.4:
            k = rnd.choice(sorted(fbsd)); t = rnd.random()
            if t < 0.75: return k
            if t < 0.85: return k[:-1] if not k[:-1].endswith('.') else k
            return k + rnd.choice(['1', 'X', '@euro', '@x'])
        if r < 0.5 or (cfg == 'freebsd-env'): ch = rnd.choice(rnd.choice(list(names.values())))
        elif r < 0.7: ch = rnd.choice(allnames)
        elif r < 0.85: ch = ''.join(rnd.choice('ABCabc0189-_:') for _ in range(rnd.randint(1, 50)))
        elif r < 0.9: ch = ''
        else: ch = rnd.choice(['UTF-8', 'utf8', 'ISO8859-1', 'eucJP', 'GB18030', 'KOI8-R', 'Big5', 'utf-8'])
        if rnd.random() < 0.3: ch = ''.join(rnd.choice([c.lower(), c.upper()]) for c in ch)
        mod = '@' + rnd.choice(['euro', 'latin', 'cyrillic', 'valencia', 'x', '', 'modifier' * rnd.randint(1, 12)]) if rnd.random() < 0.45 else ''
        return base + '.' + ch + mod
    def step(kind, cfg, st, live):
        """One random change: the command, applied to the model state."""
        if kind == 'cp':
            st['cp'] = rnd.choice(list(wcp)) if rnd.random() < 0.8 else rnd.randint(0, 70000); return 'c %d' % st['cp']
        r = rnd.random()
        if kind == 'langinfo' and r < 0.8 or r < 0.15:
            l = rnd.choice(live); st['loc'] = l; st['charset'] = locs[l]; return 'l ' + l
        v = rnd.choice(['LC_ALL', 'LC_CTYPE', 'LANG'])
        if r < 0.4: st['env'].pop(v, None); return 'u ' + v
        x = locname(cfg) if rnd.random() < 0.93 else ''
        st['env'][v] = x; return 'e %s %s' % (v, x)
    fresh = lambda: {'env': {}, 'loc': 'C', 'charset': 'ANSI_X3.4-1968', 'cp': 1252}
    def apply(st, c):
        if c[0] == 'e': k, x = c[2:].split(' ', 1); st['env'][k] = x
        elif c[0] == 'u': st['env'].pop(c[2:], None)
        elif c[0] == 'l': st['loc'] = c[2:]; st['charset'] = locs[c[2:]]
        elif c[0] == 'c': st['cp'] = int(c[2:])
    def bad(line, want, ids):
        if not line.startswith('Q '): return 'no answer to the query'
        c, cpp, lk = line[2:].split('\t'); lk = int(lk)
        if not c or c == '(null)': return 'the query returned %s' % ('no name' if c else 'an empty name')
        if c != cpp: return 'the C form says "%s", the C++ form "%s"' % (c, cpp)
        if want[0] == 'enc' and lk != ids[want[1]]: return 'answer "%s", which looks up to %d; the locale uses %s, which is %d' % (c, lk, want[1], ids[want[1]])
        if want[0] == 'text' and c.upper() != want[1].upper(): return 'answer "%s"; the locale uses "%s"' % (c, want[1])
        if want[0] == 'usable' and lk < 0: return 'answer "%s", which the library cannot look up' % c
        if want[0] == 'other' and lk >= 0: return 'answer "%s", which is a different character set from the code page in use' % c
        return ''
    def verdict(exe, kind, cfg, seq, ids):
        so, err = run(exe, ['r'] + seq + ['q']); st = fresh()
        for c in seq: apply(st, c)
        if err: return err
        qs = [l for l in so if l.startswith('Q ')]
        return bad(qs[-1], model(kind, cfg, st), ids) if qs else 'no answer'
    for cfg, (plats, defs, kind) in LOC_CONFIGS.items():
        t0 = time.time(); exe = loc_prog(tree, cfg)
        so, err = run(exe, ['n ' + names[e][0] for e in sorted(names)])
        if err or len(so) != len(names): out.violations.append((replay_file(prop, cfg, err or 'lookup failed'), 'the name lookup fails in the locale driver: ' + err)); return
        ids = dict(zip(sorted(names), (int(l[2:]) for l in so)))
        for m in charmaps:
            locs['xx_XX.' + m] = special.get(m, m)
        live = []
        for l in sorted(locs):
            so, err = run(exe, ['l ' + l]) if l in ('C', 'POSIX', 'C.utf8') else ([], '')
            if not err and 'NOLOCALE' not in (so or []): live.append(l)
        so, err = run(exe, [x for l in live for x in ('l ' + l, 'n X')])   # an N line after each attempt
        ok, cur = [], 0
        for l in live:
            if so[cur] == 'NOLOCALE': cur += 2
            else: ok.append(l); cur += 1
        live = ok
        # Systematic part first, then random histories.
        seqs = []
        if kind == 'langinfo': seqs += [['l ' + l] for l in live]
        if kind == 'cp': seqs += [['c %d' % c] for c in sorted(wcp)]
        if kind == 'env':
            seqs += [['e %s xx_XX.%s%s' % (v, n, m)] for v in ('LC_ALL', 'LC_CTYPE', 'LANG') for n in allnames for m in ('', '@euro')] + [['l ' + l] for l in live]
            if cfg == 'freebsd-env': seqs += [['e %s %s' % (v, k)] for v in ('LC_ALL', 'LC_CTYPE', 'LANG') for k in sorted(fbsd)]
        total = {'utf8': 500, 'cp': 4000, 'langinfo': 4000, 'env': 25000}[kind] * (1 if tier == 'quick' else 20)
        for _ in range(total):
            st = fresh(); seqs.append([step(kind, cfg, st, live) for _ in range(rnd.randint(1, 8))])
        cmds, expect = [], []
        for i, s in enumerate(seqs):
            cmds.append('r'); st = fresh()
            for j, c in enumerate(s):
                apply(st, c); cmds += [c, 'q']; expect.append((i, j, model(kind, cfg, st)))
        so, err = run(exe, cmds); qs = [l for l in so or [] if l.startswith('Q ')]
        fail = None
        for (i, j, w), q in zip(expect, qs):
            e = bad(q, w, ids)
            if e: fail = (i, j, e); break
        if fail is None and (err or len(qs) != len(expect)):
            i, j, w = expect[min(len(qs), len(expect) - 1)]; fail = (i, j, err or 'a query gave no answer')
        if fail:
            i, j, e = fail; s = seqs[i][:j + 1]
            if verdict(exe, kind, cfg, s, ids):
                k = 0
                while k < len(s):
                    t = s[:k] + s[k + 1:]
                    if verdict(exe, kind, cfg, t, ids): s = t
                    else: k += 1
                for k, c in enumerate(s):   # shorten the values
                    if c[0] == 'e':
                        p = 0; head = ' '.join(c.split(' ', 2)[:2]) + ' '; val = c[len(head):]
                        while p < len(val):
                            t = s[:k] + [head + val[:p] + val[p + 1:]] + s[k + 1:]
                            if verdict(exe, kind, cfg, t, ids): val = val[:p] + val[p + 1:]; s = t
                            else: p += 1
                e = verdict(exe, kind, cfg, s, ids)
            rp = replay_file(prop, cfg, 'Configuration %s (%s). Commands for the driver (src/c21.cpp):\n%s\n%s\n\nReplay: printf \'%s\\n\' | LOCPATH=%s %s\n' % (cfg, kind, '\n'.join(['r'] + s + ['q']), e, '\\n'.join(['r'] + s + ['q']), locdir, exe))
            out.violations.append((rp, '%s: %s' % (cfg, e))); return
        nt = len({(cfg, tuple(s)) for s in seqs}); lab = {}
        for i, j, w in expect: lab[w[0]] = lab.get(w[0], 0) + 1
        print('[%s] locale: %d histories, %d queries, %d distinct, %.1f s' % (cfg, len(seqs), len(qs), nt, time.time() - t0))
        out.results.append(result('c21_' + cfg, 'asan', len(seqs), nt, [' ; '.join(s) for s in seqs[-3:]], lab, time.time() - t0, len(qs)))

# --- C22: the generator tools --------------------------------------------------------------------------------------
TOOLS = ('genindexes', 'genaliases', 'check-encodings')

def _tools(d, incs, key):
    """The three tools compiled against a directory with an encoding list."""
    def one(t): return once(os.path.join(d, t + key), lambda x: sh('g++ -std=c++20 -w -O0 %s -o %s %s/tools/%s.cpp' % (incs, x, REPO, t), 'compiling the tool ' + t))
    with cf.ThreadPoolExecutor(3) as ex: return dict(zip(TOOLS, ex.map(one, TOOLS)))

def _enum_values(d, code, lang):
    """Compiles generated enum text and returns constant -> value."""
    names = list(dict.fromkeys(re.findall(r'\b(\w+)\s*=', re.sub(r'//[^\n]*|/\*.*?\*/', '', code, flags=re.S))))
    src = os.path.join(d, 'v.' + ('c' if lang == 'C' else 'cpp'))
    pre = '' if lang == 'C' else 'namespace reiconv { namespace encoding {} }\n'
    use = '' if lang == 'C' else 'using namespace reiconv; using namespace reiconv::encoding;\n'
    open(src, 'w').write('#include <stdio.h>\n' + pre + code + '\n' + use + 'int main(void) {\n' + ''.join('printf("%s %%d\\n", (int)%s%s);\n' % (n, '' if lang == 'C' else 'Encodings::', n) for n in names) + 'return 0; }\n')
    sh('%s -w -O0 -o %s/v %s' % ('gcc -std=gnu17' if lang == 'C' else 'g++ -std=gnu++20', d, src), 'compiling generated constants')
    o = subprocess.run([d + '/v'], stdout=subprocess.PIPE, text=True).stdout
    return {a: int(b) for a, b in (l.split() for l in o.splitlines())}

def _cmd(*a, **k):
    return subprocess.run(list(a), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=120, **k)

def _alias_lines(path):
    t = open(path, encoding='latin1').read().split('%%\n', 1)
    return [tuple(x.strip() for x in l.rsplit(',', 1)) for l in t[1].splitlines() if l.strip()] if len(t) == 2 else None

def generators(out, tree, prop, tier, seed):
    import random
    t0 = time.time(); by, names = aliases(); frozen = dict(l.split() for l in open(VERIF + '/data/constants.txt'))
    d = tempfile.mkdtemp(prefix='vpgen'); n = [0]; nt = [0]
    def bad(text): out.violations.append((replay_file(prop, 'generators', text + '\n\nReplay: python3 /verif/run.py C22\n'), text.split('\n')[0])); return True
    def diff(a, b): return ', '.join('%s: %s / %s' % (k, a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k))[:600]
    try:
        T = _tools(d, '-I%s/lib' % REPO, '')
        # The tools on the tree itself.
        vals = {}
        for lang, f in (('C', 'h'), ('C++', 'hpp')):
            r = _cmd(T['genindexes'], lang)
            if r.returncode: return bad('genindexes %s ends with code %d' % (lang, r.returncode))
            gen = _enum_values(d, r.stdout, lang); com = _enum_values(d, open(REPO + '/lib/generated/indexes.%s.shippet' % f).read(), lang); n[0] += len(com); nt[0] += len(com)
            if gen != com: return bad('genindexes %s does not reproduce the committed constants: (generated / committed) %s' % (lang, diff(gen, com)))
            vals[lang] = {k[9:] if lang == 'C' and k.startswith('ENCODING_') else k: v for k, v in com.items()}
        if vals['C'] != vals['C++']: return bad('the C and C++ constants differ: (C / C++) ' + diff(vals['C'], vals['C++']))
        if set(frozen) - set(vals['C']): return bad('constants are missing: ' + ' '.join(sorted(set(frozen) - set(vals['C']))))
        r = _cmd(T['genaliases'], d + '/aliases.gperf')
        if r.returncode: return bad('genaliases ends with code %d' % r.returncode)
        al = _alias_lines(d + '/aliases.gperf')
        if not al: return bad('genaliases writes no list of names')
        src = d + '/l.c'
        esc = lambda s: s.replace('\\', '\\\\').replace('"', '\\"')
        open(src, 'w').write('#include <stdio.h>\n#include <cppp/reiconv.h>\n#include "encoding_indexes.h"\nint main(void) {\n' + ''.join('printf("%%d %%d\\n", reiconv_lookup_from_name("%s"), (int)%s);\n' % (esc(a), e) for a, e in al)
                             + ''.join('printf("%%d\\n", reiconv_lookup_from_name("%s"));\n' % esc(names[e][0]) for e in sorted(names)) + 'return 0; }\n')
        cs = [s for s in tree.sources if s.endswith('.c')]
        o = [once(os.path.join(BUILD, 'gen-%s-%s.o' % (_h(tree.hash, s), os.path.basename(s))), lambda t, s=s: sh('gcc -std=gnu17 -w -O1 %s %s -c %s -o %s' % (tree.defs, tree.incs, s, t), 'compiling ' + s)) for s in cs]
        sh('gcc -std=gnu17 -w -O0 %s %s %s %s -o %s/l' % (tree.defs, tree.incs, src, ' '.join(o), d), 'compiling the list of names')
        lines = _cmd(d + '/l').stdout.split('\n'); look = {}
        for (a, e), l in zip(al, lines):
            x, y = map(int, l.split()); n[0] += 1; nt[0] += 1; look[canon(a)] = x
            if x != y: return bad('genaliases lists "%s" as %s, index %d; the library looks it up as %d' % (a, e, y, x))
        ids = dict(zip(sorted(names), map(int, lines[len(al):len(al) + len(names)])))
        for m, e in by.items():
            if m not in look: return bad('genaliases does not list "%s", a name of %s' % (m, e))
            if look[m] != ids[e]: return bad('"%s" is listed for another encoding than %s' % (m, e))
        if _cmd(T['check-encodings']).returncode: return bad('check-encodings refuses the encoding list of the tree')
        # Misuse and failures are reported by the exit code.
        for c in ([T['genindexes']], [T['genindexes'], 'D'], [T['genindexes'], 'C', 'x'], [T['genaliases']], [T['genaliases'], d + '/no/such/dir/f'], [T['genaliases'], d + '/a', 'b'], [T['genaliases'], '/dev/full'], [T['check-encodings'], 'x']):
            n[0] += 1
            if _cmd(*c).returncode == 0: return bad('%s succeeds although it cannot do what was asked' % ' '.join(os.path.basename(c[0]) if x == c[0] else x for x in c))
        print('[tools] on the tree: %d constants, %d names, %.1f s' % (len(vals['C']), len(al), time.time() - t0))
        # Generated encoding lists.
        def gen(rnd):
            L = {'enc': [], 'idx': []}; used = set()
            def ident(cs, k):
                while True:
                    s = ''.join(rnd.choice(cs) for _ in range(rnd.randint(1, k)))
                    if s not in used: used.add(s); return s
            for i in range(rnd.choice([1, 2, 3, 10, 40, 200])):
                nm = [''.join(rnd.choice('ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789' + ('' if rnd.random() < .7 else ':.+()-_@')) for _ in range(rnd.randint(1, 24))) for _ in range(rnd.randint(1, 6))]
                L['enc'].append((nm, 'e_' + ident('abcxyz0189_', 9), 'N_' + ident('ABCXYZ0189_', 9), rnd.random() < .5))
            for i in range(rnd.choice([0, 1, 3, 20])): L['idx'].append(('A_' + ident('ABCXYZ0189_', 9), rnd.choice(L['enc'])[2]))
            L['special'] = rnd.choice(['', '', 'lower', 'nonascii'])
            if L['special']:
                e = rnd.choice(L['enc']); k = rnd.randrange(len(e[0])); p = rnd.randint(0, len(e[0][k])); e[0][k] = e[0][k][:p] + (rnd.choice('abcz') if L['special'] == 'lower' else '\u00e9') + e[0][k][p:]
            L['mix'] = rnd.random() < .5
            return L
        def render(L):
            s = []
            for nm, x, ix, comma in L['enc']:
                s.append('DEFENCODING((%s%s), %s, %s, {%s_mbtowc, NULL}, {%s_wctomb, NULL})' % (', '.join('"%s"' % m for m in nm), ',' if comma else '', x, ix, x, x))
                if len(x) % 2: s.append('DEFCODEPAGE(%d, %s)' % (len(s), x))
            a = ['DEFINDEX(%s, %s)' % p for p in L['idx']]
            return '\n'.join(a + s if L['mix'] else s + a) + '\n'
        def judge(L):
            w = tempfile.mkdtemp(dir=d)
            try:
                for f in glob.glob(REPO + '/lib/*.h'): shutil.copy(f, w)
                open(w + '/encodings.h.snippet', 'w', encoding='utf-8').write(render(L))
                try: T = _tools(w, '-I%s -I%s/lib' % (w, REPO), '')
                except build.BuildError as e: return None
                val = {e[2]: i for i, e in enumerate(L['enc'])}; val.update({a: val[b] for a, b in L['idx']})
                for lang in ('C', 'C++'):
                    r = _cmd(T['genindexes'], lang)
                    if r.returncode: return 'genindexes %s ends with code %d' % (lang, r.returncode)
                    try: got = _enum_values(w, r.stdout, lang)
                    except build.BuildError: return 'genindexes %s writes constants that do not compile' % lang
                    got = {k[9:] if lang == 'C' and k.startswith('ENCODING_') else k: v for k, v in got.items()}
                    if got != val: return 'genindexes %s: (generated / expected) %s' % (lang, diff(got, val))
                r = _cmd(T['genaliases'], w + '/a')
                if (r.returncode != 0) != (L['special'] == 'nonascii'): return 'genaliases ends with code %d on a list %s' % (r.returncode, 'with a name that is not ASCII' if L['special'] == 'nonascii' else 'of ASCII names')
                if r.returncode == 0:
                    want = sorted((m.upper(), 'ei_' + x) for nm, x, ix, c in L['enc'] for m in nm); got = _alias_lines(w + '/a')
                    if got is None or sorted(got) != want: return 'genaliases: lists %s' % sorted(set(got or []) ^ set(want))[:6]
                low = any(c.islower() and c < '\x80' for nm, *_ in L['enc'] for m in nm for c in m); r = _cmd(T['check-encodings'])
                if (r.returncode != 0) != low: return 'check-encodings ends with code %d on a list %s lower case letters' % (r.returncode, 'with' if low else 'without')
                return ''
            finally: shutil.rmtree(w, ignore_errors=True)
        count = 24 if tier == 'quick' else 1500
        Ls = [gen(random.Random(seed * 100003 + i)) for i in range(count)]
        with cf.ThreadPoolExecutor(8) as ex: rs = list(ex.map(judge, Ls))
        if all(r is None for r in rs): out.notes.append('the tools do not take generated encoding lists on this tree; only the tree itself was checked')
        for L, r in zip(Ls, rs):
            if r is None: continue
            n[0] += 3; nt[0] += len(L['enc']) > 1
            if r:
                changed = True; budget = 120
                while changed and budget:
                    changed = False
                    for k in range(len(L['idx']) + len(L['enc'])):
                        if not budget: break
                        M = dict(L); M['enc'] = list(L['enc']); M['idx'] = list(L['idx'])
                        if k < len(L['idx']): del M['idx'][k]
                        else:
                            e = M['enc'].pop(k - len(L['idx'])); M['idx'] = [p for p in M['idx'] if p[1] != e[2]]
                        if not M['enc'] or (M['special'] == 'nonascii' and not any('\u00e9' in m for e in M['enc'] for m in e[0])): continue
                        budget -= 1; q = judge(M)
                        if q: L, r, changed = M, q, True; break
                return bad('%s\n\nfor the encoding list\n%s' % (r, render(L)))
        print('[tools] ok: %d generated lists, %.1f s' % (sum(r is not None for r in rs), time.time() - t0))
        out.results.append(result('c22_tools', 'tools', n[0], nt[0], [render(L)[:160] for L in Ls[:3]], {'lists': sum(r is not None for r in rs)}, time.time() - t0))
    finally: shutil.rmtree(d, ignore_errors=True)

# --- C24: the first calls of a process, from several threads --------------------------------------------------------
def first(out, tree, prop, tier, seed):
    t0 = time.time(); src = VERIF + '/src/c24first.cpp'; inc = os.path.join(BUILD, 'names-' + _h(open(VERIF + '/data/aliases.txt').read(), 1))
    def mk(t):
        os.makedirs(t); open(t + '/vp_names.inc', 'w').write(''.join('"%s",\n' % w for l in open(VERIF + '/data/aliases.txt') for w in (l.split()[1], l.split()[-1])))
    once(inc, mk)
    objs = [f() for f in tree.lib('tsan')]
    exe = os.path.join(BUILD, 'first-' + _h(tree.hash, open(src).read(), *objs))
    once(exe, lambda t: sh('g++ -std=c++20 -w -O1 -g1 -fsanitize=thread %s %s -I%s -o %s %s %s -lpthread' % (tree.defs, tree.incs, inc, t, src, ' '.join(objs)), 'building the driver for first calls'))
    env = dict(os.environ, TSAN_OPTIONS='exitcode=96:halt_on_error=1'); pre = ['setarch', '-R'] if shutil.which('setarch') and subprocess.run(['setarch', '-R', 'true'], stderr=subprocess.DEVNULL).returncode == 0 else []
    total = 800 if tier == 'quick' else 40000
    def one(k):
        try: r = subprocess.run(pre + [exe, str(k)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=120)
        except subprocess.TimeoutExpired: return k, None, 'the process hangs'
        return k, r.returncode, r.stdout + r.stderr
    with cf.ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, range(seed * 100000, seed * 100000 + total)))
    if all('unexpected memory mapping' in s for k, rc, s in rs): out.notes.append('ThreadSanitizer cannot run here: ' + rs[0][2][:200]); return
    for k, rc, s in rs:
        if rc == 0 or 'unexpected memory mapping' in s: continue
        again = [one(k) for _ in range(40)]; hit = [x for x in again if x[1] != 0]
        if not hit: out.notes.append('not reproducible: seed %d: %s' % (k, s[:300])); continue
        rp = replay_file(prop, 'first', 'Several threads make the first calls of a process. Replay (repeat if needed): %s %s %d\n\n%s' % (' '.join(pre), exe, k, hit[0][2][:5000]))
        out.violations.append((rp, 'threads that make the first calls interfere: ' + next((l for l in s.splitlines() if 'WARNING' in l or 'thread ' in l), s[:200]))); return
    print('[first] ok: %d processes, %.1f s' % (total, time.time() - t0))
    out.results.append(result('c24_first', 'tsan', total, total, ['seeds %d..%d' % (seed * 100000, seed * 100000 + total - 1)], wall=time.time() - t0))
