#!/usr/bin/env python3
"""Runs the check of one property: python3 run.py <property> [quick|thorough] | --replay FILE | --setup"""
import glob, json, lzma, os, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from props import CHECKS, ASSUME
VERIF = build.VERIF
EVID = os.path.join(VERIF, 'evidence'); REPL = os.path.join(VERIF, 'replays')

ENV = dict(os.environ, VP_DATA=VERIF + '/data', LC_ALL='C',
           ASAN_OPTIONS='detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:malloc_context_size=8',
           UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=97', TSAN_OPTIONS='exitcode=96:halt_on_error=1:report_signal_unsafe=0:history_size=4')

def tables():
    src = VERIF + '/data/tables.txt.xz'
    p = os.path.join(build.BUILD, 'tables-%s.txt' % build._tree_hash(src))
    def mk(t): open(t, 'wb').write(lzma.decompress(open(src, 'rb').read()))
    return build.once(p, mk)

def known():
    r = []
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'): r.append(l)
    return r

def seed():
    try: return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: return 1

class Outcome:
    def __init__(self): self.results = []; self.violations = []; self.notes = []; self.errors = []

def run_job(out, prog, variant, prop, job, count, tier, soft, extra):
    fd, tmp = tempfile.mkstemp(suffix='.json'); os.close(fd)
    cmd = [prog, '--job', job, '--count', str(count), '--seed', str(seed()), '--tier', tier, '--out', tmp, '--rdir', REPL, '--prop', prop, '--soft', '%.0f' % soft] + extra
    if variant == 'tsan': cmd = ['setarch', '-R'] + cmd if os.path.exists('/usr/bin/setarch') and subprocess.run(['setarch', '-R', 'true'], stderr=subprocess.DEVNULL).returncode == 0 else cmd
    r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    try: j = json.load(open(tmp))
    except Exception: j = None
    os.unlink(tmp)
    print('[%s] %s' % (variant, r.stdout.strip()[-3000:]), flush=True)
    if j is None or r.returncode not in (0, 1):
        out.errors.append('job %s (%s) ended with code %d: %s' % (job, variant, r.returncode, r.stdout[-1500:])); return
    j['variant'] = variant
    out.results.append(j)
    if j['violation']: out.violations.append((j['replay'], j['violation']))
    if j['note']: out.notes.append(job + ': ' + j['note'])

def check(prop, tier):
    t0 = time.time(); c = CHECKS[prop]; out = Outcome()
    os.makedirs(EVID, exist_ok=True); os.makedirs(REPL, exist_ok=True)
    for f in glob.glob(os.path.join(REPL, prop + '-*')): os.unlink(f)
    budget = 420.0 if tier == 'quick' else 6 * 3600.0
    ENV['VP_TABLES'] = tables(); ENV['VP_SEED'] = str(seed()); ENV['VP_TIER'] = tier
    try:
        tree = build.Tree()
        progs = {}
        for j in c['jobs']:
            if out.violations: break
            count = j['quick'] if tier == 'quick' else j.get('thorough', j['quick'])
            if not count: continue
            v = j.get('variant', 'fast')
            if v not in progs: progs[v] = build.program(tree, v, j.get('src', c.get('src')), j.get('libs', ''))
            run_job(out, progs[v], v, prop, j['job'], count, tier, max(20.0, budget - (time.time() - t0)), j.get('extra', []))
        if not out.violations:
            for f in c.get('py', []):
                import pychecks
                if out.violations: break
                getattr(pychecks, f)(out, tree, prop, tier, seed())
    except build.BuildError as e:
        # The library (or a check) does not compile against this tree.
        print('BUILD-ERROR ' + str(e)); sys.exit(2)
    if out.errors and not out.violations:
        print('ERROR ' + '\n'.join(out.errors)); sys.exit(2)
    ev = {'property': prop, 'tier': tier, 'seed': seed(), 'level': c.get('level', 'exploration'),
          'coverage': {'evaluations': sum(r['evaluations'] for r in out.results),
                       'distinct_nontrivial': sum(r['distinct_nontrivial'] for r in out.results),
                       'rule': c['rule'],
                       'samples': [s for r in out.results for s in r['samples'][:4]][:24],
                       'jobs': [{k: r[k] for k in ('job', 'variant', 'cases', 'evaluations', 'distinct_nontrivial', 'labels', 'wall_s')} for r in out.results]},
          'assumptions': ASSUME + c.get('assume', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(out.violations)}
    if c.get('exhaustive'): ev['coverage']['exhaustive'] = True
    if out.notes: ev['coverage']['notes'] = out.notes
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    for l in known():
        if 'property=' + prop + ' ' in l: print('KNOWN-FINDING: ' + l[len('known:'):].strip())
    if out.violations:
        for rp, msg in out.violations:
            print(msg); print('VIOLATION property=%s replay=%s' % (prop, rp), flush=True)
        sys.exit(1)
    print('%s %s: held on %d evaluations (%d distinct non-trivial), %.1f s' % (prop, tier, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], time.time() - t0))

def replay(path):
    ENV['VP_TABLES'] = tables(); ENV['VP_SEED'] = str(seed()); ENV['VP_TIER'] = 'quick'
    job = None
    for l in open(path):
        if l.startswith('job '): job = l.split(None, 1)[1].strip()
    prop = os.path.basename(path).split('-')[0]
    for j in CHECKS[prop]['jobs']:
        if j['job'] == job:
            p = build.program(build.Tree(), j.get('variant', 'fast'), j.get('src', CHECKS[prop].get('src')), j.get('libs', ''))
            sys.exit(subprocess.run([p, '--replay', path], env=ENV).returncode)
    print('this replay file describes itself:'); print(open(path).read()); sys.exit(1)

def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        # Compiles everything once, so that a fresh sandbox shows build trouble at once.
        tree = build.Tree(); tables()
        for p, c in sorted(CHECKS.items()):
            for v in sorted({j.get('variant', 'fast') for j in c['jobs']} - {'fuzz'}): build.program(tree, v, c.get('src'), '')
        print('set up'); return
    if a and a[0] == '--replay': replay(a[1])
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    check(a[0], tier)

if __name__ == '__main__': main()
