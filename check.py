#!/opt/veriftools/pyvenv/bin/python3
"""Run the check of one property.

    python3-vt check.py C08 [--tier quick|thorough] [--only HARNESS]
    python3-vt check.py --replay evidence/replay/FILE.json
"""
import argparse
import concurrent.futures
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
VT = sys.executable
PY = '/opt/venv/bin/python'
JOBS = int(os.environ.get('VERIF_JOBS', '8'))


def registry_of():
    import types
    import registry
    sys.modules['sxlib'] = registry.make(None)
    out = []
    for path in sorted(glob.glob(os.path.join(HERE, 'harness', '*.py'))):
        mod = types.ModuleType('h')
        with open(path, encoding='utf-8') as f:
            exec(compile(f.read(), path, 'exec'), mod.__dict__)
        for h in mod.__dict__.get('__harnesses__', ()):
            out.append((path, h))
    return out


class Scratch:
    """A scratch directory with a built copy of the package."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='verif-')
        self.src = {}
        self.error = None

    def build(self):
        src = os.path.join(self.dir, 'src')
        shutil.copytree(os.path.join(REPO, 'src'), src, symlinks=True,
                        ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.pyc', '*.egg-info'))
        pkg = os.path.join(src, 'zope', 'security')
        inc = subprocess.check_output(
            [PY, '-c', 'import sysconfig; print(sysconfig.get_path("include"));'
             'print(sysconfig.get_config_var("EXT_SUFFIX"))'], text=True).split()
        ps = []
        for n in ('_proxy', '_zope_security_checker'):
            ps.append(subprocess.Popen(
                ['gcc', '-shared', '-fPIC', '-O1', '-g', '-fwrapv', '-w', '-I' + inc[0],
                 '-I' + os.path.join(REPO, 'include', 'zope.proxy'),
                 '-o', os.path.join(pkg, n + inc[1]), os.path.join(pkg, n + '.c')],
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        for p in ps:
            o, _ = p.communicate()
            if p.returncode:
                self.error = 'C build failed: ' + o[-2000:]
        return src

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def run_sym(scratch, path, h, sym, tier, seconds, n, prop):
    job = {'file': path, 'func': h.name, 'mode': 'pure', 'tier': tier, 'prop': prop,
           'watch': int(sym[-1]) if sym.startswith('watch') else 0, 'seconds': seconds}
    jf = os.path.join(scratch.dir, 'job%d.json' % n)
    of = os.path.join(scratch.dir, 'out%d.json' % n)
    with open(jf, 'w') as f:
        json.dump(job, f)
    try:
        p = subprocess.run([VT, os.path.join(HERE, 'lib', 'worker.py'), jf, of],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=seconds + 120, env=dict(os.environ, PYTHONHASHSEED='0'))
        text = p.stdout
    except subprocess.TimeoutExpired:
        return {'fatal': 'worker timed out'}
    if not os.path.exists(of):
        return {'fatal': 'worker failed: ' + text[-2000:]}
    with open(of) as f:
        return json.load(f)


def run_replay(scratch, src, mode, tier, jobs, tag, timeout=300, prop=None):
    """results by job id; a crash of the interpreter is a result too"""
    jf = os.path.join(scratch.dir, 'rep-%s.json' % tag)
    of = os.path.join(scratch.dir, 'rep-%s.out' % tag)
    res, where = {}, None
    start = 0
    crashes = 0
    end = time.time() + timeout
    while start < len(jobs):
        with open(jf, 'w') as f:
            json.dump({'mode': mode, 'src': src, 'tier': tier, 'prop': prop, 'jobs': jobs,
                       'start': start}, f)
        open(of, 'w').close()
        try:
            p = subprocess.run([PY, os.path.join(HERE, 'lib', 'replay.py'), jf, of],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=max(5, end - time.time()),
                               env=dict(os.environ, PYTHONHASHSEED='0'))
            rc, text = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            rc, text = 'timeout', ''
        current = None
        for line in open(of):
            d = json.loads(line)
            if 'where' in d:
                where = d
            elif d.get('begin'):
                current = d['id']
            else:
                res[d['id']] = d
                current = None
        if rc == 0:
            break
        if current is None or rc == 'timeout' or crashes > 20:
            return res, where, 'replay failed (%s): %s' % (rc, text[-1500:])
        crashes += 1
        i = [j['id'] for j in jobs].index(current)
        res[current] = {'id': current, 'failed': [['interpreter crashed', 'exit %s' % rc]],
                        'notes': [], 'skipped': '', 'error': '', 'crash': True}
        start = i + 1
    return res, where, None


def load_known(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay_file(a)
    if a.selftest:
        return selftest()
    t0 = time.time()
    scratch = Scratch()
    try:
        return run(a, scratch, t0)
    finally:
        scratch.close()


def replay_file(a):
    d = json.load(open(a.replay))
    if d['kind'] == 'cbmc':
        import cside
        return cside.replay_file(d, a.replay)
    scratch = Scratch()
    try:
        src = scratch.build()
        job = {'id': 'r', 'file': os.path.join(HERE, d['file']), 'func': d['func'], 'case': d['case']}
        res, where, err = run_replay(scratch, src, d['mode'], d['tier'], [job], 'x',
                                     prop=d['property'])
        print(json.dumps(res.get('r'), indent=1), err or '')
        return 1 if res.get('r', {}).get('failed') else 0
    finally:
        scratch.close()


def selftest():
    import z3
    for c in (['cbmc', '--version'], ['goto-cc', '--version'], ['gcc', '--version'],
              [PY, '--version']):
        print(subprocess.check_output(c, text=True).splitlines()[0])
    print('z3', z3.get_version_string(), len(registry_of()), 'harness cases')
    return 0


def run(a, scratch, t0):
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    hs = [(p, h) for p, h in registry_of()
          if prop in h.props and tier in h.tiers and (not a.only or a.only in h.name)]
    import cside
    cjobs = cside.jobs_for(prop, tier, a.only)
    if not hs and not cjobs:
        print('no harness for', prop)
        return 2
    seconds = 240 if tier == 'quick' else 1500
    pool = concurrent.futures.ThreadPoolExecutor(JOBS)
    fb = pool.submit(scratch.build)
    futs = []
    n = 0
    for p, h in hs:
        for s in h.sym:
            futs.append((p, h, s, pool.submit(run_sym, scratch, p, h, s, tier, seconds, n, prop)))
            n += 1
    cf = [(j, pool.submit(cside.run_job, j, scratch.dir, tier)) for j in cjobs]

    problems = []            # make the answer inconclusive: error exit
    degraded = []            # parts not explored; recorded in the evidence
    tot = dict(paths=0, queries=0, branches=0, obligations=0, solver_s=0.0, pruned=0, unknown=0)
    per, labels, covers, encoded, touched = [], {}, {}, {}, set()
    jobs = {}                # replay mode -> jobs
    meta = {}
    exhaustive = True
    for p, h, s, f in futs:
        r = f.result()
        tag = '%s[%s]' % (h.name, s)
        if 'fatal' in r:
            problems.append('%s: %s' % (tag, r['fatal']))
            continue
        for k in tot:
            tot[k] += r[k]
        for l, c in r['labels'].items():
            labels[l] = labels.get(l, 0) + c
        for l, c in r['covers'].items():
            covers[l] = covers.get(l, 0) + c
        encoded.update(r['encoded'])
        touched.update(r['touched'])
        if not r['complete'] or r['undecided'] or r['incomplete'] or r['errors']:
            exhaustive = False
        for e in r['errors'][:6]:
            degraded.append('%s: %s' % (tag, e))
        for e, c in r['incomplete'].items():
            degraded.append('%s: %s (%d)' % (tag, e, c))
        for e in sorted(set(r['undecided'])):
            degraded.append('%s: solver gave no answer for %s' % (tag, e))
        if r['paths'] == 0:
            problems.append('%s: vacuous, no feasible path: %s' % (tag, r['errors'][:2]))
        per.append({'harness': tag, 'paths': r['paths'], 'pruned': r['pruned'],
                    'queries': r['queries'], 'obligations': r['obligations'],
                    'solver_s': round(r['solver_s'], 2), 'wall_s': round(r['wall_s'], 2),
                    'complete': r['complete'], 'bounds': h.bounds})
        modes = [m for m in h.replay]
        if s.startswith('watch'):
            modes = [m if 'watch' in m else '%swatch%s' % ('c' if m == 'c' else '', s[-1])
                     for m in modes]
        cap = 3000 if tier == 'quick' else 20000
        for k, v in enumerate(r['violations']):
            for m in modes:
                i = 'v:%s:%d' % (tag, k)
                jobs.setdefault(m, []).append(
                    {'id': i, 'file': p, 'func': h.name, 'case': v['case']})
                meta[i, m] = ('violation', tag, h, p, v, m)
        for k, c in enumerate(r['witnesses'][:cap]):
            for m in modes:
                i = 'w:%s:%d' % (tag, k)
                jobs.setdefault(m, []).append(
                    {'id': i, 'file': p, 'func': h.name, 'case': c})
                meta[i, m] = ('witness', tag, h, p, c, m)
    try:
        src = fb.result()
        if scratch.error:
            problems.append(scratch.error)
    except Exception as e:
        problems.append('build: %r' % e)
        src = None

    # replay on the real code
    validated = skipped = diverged = replayed = 0
    divergences = []
    confirmed = {}           # key -> record
    unconfirmed = {}
    modes_run = {}
    reps = []
    for m, js in sorted(jobs.items()):
        if src is None or (m.startswith('c') and scratch.error):
            continue
        k = max(1, min(4, len(js) // 200))
        for c in range(k):
            part = js[c::k]
            reps.append((m, pool.submit(run_replay, scratch, src, m, tier, part,
                                        '%s-%d' % (m, c), 300 if tier == 'quick' else 900, prop)))
    for m, f in reps:
        res, where, err = f.result()
        if err:
            problems.append('replay in %s: %s' % (m, err))
        if where:
            modes_run[m] = where['where']
            if m.startswith('c') and not where['c']:
                problems.append('compiled build not in use for replay')
        for i, r in res.items():
            kind, tag, h, p, v, _ = meta[i, m]
            replayed += 1
            if r['skipped']:
                skipped += 1
                continue
            failed = [tuple(x) for x in r['failed']]
            if failed:
                pass        # a false obligation is one, whatever came after it
            elif r['error'] and r.get('exception'):
                # An exception no operation of the harness may end in.
                failed = [('unexpected ' + r['exception'], r['error'][-900:])]
            elif r['error']:
                failed_err = r['error']
                if kind == 'violation':
                    unconfirmed.setdefault((tag, v['label']), failed_err)
                else:
                    divergences.append('%s %s: %s' % (i, m, failed_err[-300:]))
                    diverged += 1
                continue
            if failed:
                case = v['case'] if kind == 'violation' else v
                label, detail = failed[0]
                key = '%s/%s' % (h.name, re.sub(r'[^A-Za-z0-9_.:-]+', '-', label))
                rec = confirmed.setdefault(key, {
                    'kind': 'pysym', 'property': prop, 'file': os.path.relpath(p, HERE),
                    'func': h.name, 'case': {k: case[k] for k in ('inputs', 'dicts')},
                    'mode': m, 'tier': tier, 'label': label, 'detail': detail,
                    'found_by': kind, 'modes': []})
                if m not in rec['modes']:
                    rec['modes'].append(m)
                if kind == 'violation':
                    unconfirmed[tag, v['label']] = None
            elif kind == 'violation':
                unconfirmed.setdefault((tag, v['label']),
                                       'did not reproduce on the real code (%s) %s' % (
                                           m, str(v.get('detail', ''))[:200]))
            elif v.get('notes') not in (None, r['notes']) and m in ('pure', 'watch1', 'watch2') and \
                    not h.doc.startswith('[notes may differ]'):
                diverged += 1
                divergences.append('%s %s: symbolic %s real %s case %s' % (
                    i, m, v.get('notes'), r['notes'], json.dumps(v['inputs'])[:300]))
            else:
                validated += 1
    # compiled part
    cstats = []
    for j, f in cf:
        r = f.result()
        cstats.append(r['stats'])
        problems += r['problems']
        degraded += r['degraded']
        for k in ('queries', 'obligations', 'solver_s'):
            tot[k] += r[k]
        if not r['exhaustive']:
            exhaustive = False
        for l, c in r['labels'].items():
            labels[l] = labels.get(l, 0) + c
        for l, c in r['covers'].items():
            covers[l] = covers.get(l, 0) + c
        touched.update(r['functions'])
        validated += r['validated']
    cv = cside.confirm(cf, scratch, None if scratch.error else src, prop, tier) if cf else \
        {'confirmed': {}, 'unconfirmed': [], 'validated': 0, 'diverged': []}
    confirmed.update(cv['confirmed'])
    validated += cv['validated']
    replayed += cv['validated'] + len(cv['diverged'])
    diverged += len(cv['diverged'])
    divergences += cv['diverged']
    # A counterexample that the real code does not reproduce is no violation: the
    # encoding misrepresents the code there, and that part counts as not explored.
    degraded += cv['unconfirmed']
    for (tag, label), why in unconfirmed.items():
        if why is not None:
            degraded.append('%s: counterexample to %r %s' % (tag, label, why))
    if degraded:
        exhaustive = False
    if problems and not scratch.error and tot['obligations']:
        # part of the check could not run; say so, and answer for the rest
        degraded += problems
        problems = []
        exhaustive = False

    # report
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    for f in glob.glob(os.path.join(HERE, 'evidence', 'replay', prop + '-*.json')):
        os.unlink(f)
    known = load_known(prop)
    violations = 0
    nk = 0
    for k, (key, rec) in enumerate(sorted(confirmed.items())):
        kn = [t for kk, t in known if kk == key]
        rec['key'] = key
        f = os.path.join(HERE, 'evidence', 'replay', '%s-%d.json' % (prop, k))
        with open(f, 'w') as o:
            json.dump(rec, o, indent=1)
        if kn:
            nk += 1
            print('KNOWN-FINDING: property=%s %s' % (prop, kn[0]))
        else:
            violations += 1
            print('  %s: %s (%s)' % (key, rec.get('detail', '')[:400], ','.join(rec.get('modes', []))))
            print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(f, HERE)))
    samples = []
    for p, h, s, f in futs:
        r = f.result()
        if r.get('witnesses'):
            w = r['witnesses'][len(r['witnesses']) // 2]
            samples.append({'harness': h.name, 'inputs': w['inputs'], 'dicts': w['dicts'],
                            'outcome': w['notes']})
    samples = samples[:6]
    for st in cstats:
        samples += st.pop('samples', [])[:2]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot['paths'] + sum(s.get('properties', 0) for s in cstats),
            'transitions': tot['branches'] + sum(s.get('steps', 0) for s in cstats),
            'traces_validated_against_impl': validated,
            'samples': samples,
            'explanation': 'states: feasible symbolic paths explored (plus CBMC assertions decided); '
                           'transitions: branch decisions put to the solver (plus CBMC program steps); '
                           'traces: path witnesses whose concrete run on the real build satisfied '
                           'every assertion and, for the Python build, the same outcome notes.',
            'queries': tot['queries'], 'solver_s': round(tot['solver_s'], 2),
            'assertions_discharged': tot['obligations'],
            'assertion_labels': labels, 'reachability': covers,
            'functions_encoded': sorted(touched),
            'modules_instrumented': encoded,
            'harnesses': per, 'cbmc': cstats,
            'replayed': replayed, 'replay_skipped': skipped,
            'replay_builds': modes_run,
            'diverged': diverged, 'divergences': divergences[:10],
            'not_explored': degraded, 'pruned_paths': tot['pruned'],
            'solver_unknown': tot['unknown'],
            'exhaustive': bool(exhaustive),
        },
        'assumptions': sorted({b for x in per for b in [x['bounds']] if b}) + sorted(
            {b for s in cstats for b in s.get('assumptions', [])}),
        'wall_s': round(time.time() - t0, 2),
        'violations': violations,
    }
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d paths, %d obligations, %d queries (%.1fs solver), %d traces validated, '
          '%d diverged, %d violations, %.1fs' % (
              prop, tier, tot['paths'], tot['obligations'], tot['queries'], tot['solver_s'],
              validated, diverged, violations, time.time() - t0))
    for d in degraded[:8]:
        print('  not explored: ' + d[:1500])
    if a.v:
        for d in per:
            print('   ', d)
    for d in divergences[:8 if not a.v else 40]:
        print('  diverged: ' + d[:1200])
    for d in problems[:8]:
        print('  PROBLEM: ' + d[:1500])
    if violations:
        return 1
    return 2 if problems else 0


if __name__ == '__main__':
    sys.exit(main())
