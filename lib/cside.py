"""The compiled part: CBMC on the C sources, linked to a model of the interpreter.

The module's source is compiled unchanged from /repo with goto-cc, the harness
(cbmc/proxy.c or cbmc/checker.c, over cbmc/model.h) calls its slots with
nondeterministic parties and answers, and CBMC decides every assertion.  A
counterexample counts once creplay.py reproduces it on the built extension.
"""
import json
import os
import re
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
UNWIND = 80

MODULES = {'proxy': '_proxy.c', 'checker': '_zope_security_checker.c'}
UNARY = ['neg', 'pos', 'abs', 'invert', 'int', 'float', 'index']
BINARY = ['add', 'sub', 'mul', 'mod', 'divmod', 'lshift', 'rshift', 'and', 'xor', 'or',
          'floordiv', 'truediv']
INPLACE = ['i' + x for x in BINARY if x != 'divmod'] + ['ipow']
ASSUMED = [
    'C entries: the interpreter API is a model (cbmc/model.h): each call may succeed with any of '
    'ten kinds of result or fail; dictionary lookups run no foreign code; allocation succeeds',
    'C entries: loops and recursion up to %d steps, names up to 12 ASCII characters, one '
    'operation at a time, single thread' % UNWIND]


def _table():
    """(module, entry, properties, [definitions for the quick tier], [... thorough])"""
    out = []

    def add(module, entry, props, quick, thorough=None):
        out.append((module, entry, props.split(), quick, quick if thorough is None else thorough))

    def fasts(fs, sides=(0,)):
        return [{'FAST': f, 'SIDE': s} for f in fs for s in sides]
    op = 'C02 C03 C04 C30'
    for n in UNARY:
        add('proxy', 'e_' + n, op, fasts((0, 1)), fasts(range(4)))
    for n in BINARY:
        add('proxy', 'e_' + n, op, fasts((1,), (0, 1, 2, 4)) + fasts((0,), (0, 4)),
            fasts(range(4), range(6)))
    for n in INPLACE:
        add('proxy', 'e_' + n, op, fasts((0, 1)), fasts(range(4)))
    pows = [a + 3 * b + 12 * c for a in range(3) for b in range(4) for c in range(5)
            if (a == 1) + (b == 1) + (c == 1) <= 1 and
            (a in (1, 2) or b in (1, 2) or c in (1, 2))]
    few = [a + 3 * b + 12 * c for a, b, c in (
        (2, 0, 4), (2, 0, 0), (2, 1, 4), (2, 2, 2), (0, 2, 4), (0, 2, 0), (0, 2, 3), (1, 0, 4),
        (0, 0, 2), (0, 1, 2), (0, 3, 1), (2, 3, 3))]
    add('proxy', 'e_pow', op, fasts((1,), few) + fasts((0,), few[:2]), fasts(range(4), pows))
    for n in ('iter', 'next', 'call', 'getitem', 'setitem', 'item', 'ass_item', 'contains', 'len'):
        add('proxy', 'e_' + n, op, fasts(range(4)))
    # the same again: what went before must not matter
    again = [{'FAST': 0, 'SIDE': 0, 'TWICE': 1}]
    for n in ('add', 'iadd', 'call'):
        add('proxy', 'e_' + n, op, again)
    for n in ('neg', 'index', 'divmod', 'iter', 'getitem', 'setitem', 'contains', 'len'):
        add('proxy', 'e_' + n, 'C02 C30', again)
    add('proxy', 'e_getattr', 'C01 C03 C04 C30', again)
    add('proxy', 'e_setattr', 'C01 C04 C30', again)
    for n in ('compare', 'hash', 'bool'):
        add('proxy', 'e_' + n, 'C05 C30', again)
    for n in ('str', 'repr'):
        add('proxy', 'e_' + n, 'C06 C30', again)
    # another within: whoever is asked or used does the same
    within = [{'FAST': 0, 'SIDE': 0, 'NESTAT': k} for k in range(3)]
    add('proxy', 'e_add', op, within)
    for n in ('iadd', 'call'):
        add('proxy', 'e_' + n, 'C02 C03 C04', within)
    for n in ('neg', 'iter', 'getitem'):
        add('proxy', 'e_' + n, 'C02', within[:2])
    for n in ('setitem', 'contains', 'len'):
        add('proxy', 'e_' + n, 'C02', within[:2])
    add('proxy', 'e_getattr', 'C01 C03 C04 C30', within)
    add('proxy', 'e_setattr', 'C01 C04', within[:2])
    add('proxy', 'e_compare', 'C05 C30', within[:2])
    for n in ('hash', 'bool'):
        add('proxy', 'e_' + n, 'C05', within[:1])
    for n in ('str', 'repr'):
        add('proxy', 'e_' + n, 'C06', within[:2])
    within = [{'TABLES': 2, 'NESTAT': 0}]
    add('checker', 'e_check_slot', 'C08', within)
    add('checker', 'e_check', 'C08 C30', within)
    add('checker', 'e_check_setattr', 'C09', within)
    within = [{'SEL': 4, 'F1': f, 'NESTAT': 0} for f in (0, 3, 4)] + \
        [{'SEL': 4, 'F1': 5, 'F2': 0, 'NESTAT': k} for k in (0, 1)]
    add('checker', 'e_select', 'C10 C30', within)
    add('checker', 'e_proxy', 'C10', [{'OWN': 3, 'NESTAT': 0}] + [
        dict(x, NESTAT=x['NESTAT'] + 1) for x in within])
    again = [{'TABLES': 2, 'TWICE': 1}]
    add('checker', 'e_check_slot', 'C08 C30', again)
    add('checker', 'e_check', 'C08 C30', again)
    add('checker', 'e_check_setattr', 'C09 C30', again)
    pairs = [dict(zip(('FSEL', 'FF1', 'SEL', 'F1'), x), TWICE=1) for x in (
        (3, 0, 0, 0), (0, 0, 3, 0), (1, 0, 3, 0), (3, 0, 1, 0), (4, 0, 0, 0), (4, 0, 4, 2),
        (4, 2, 4, 0), (4, 0, 4, 4), (4, 4, 4, 0), (4, 0, 4, 3), (0, 0, 4, 0))]
    add('checker', 'e_select', 'C10 C30', pairs)
    add('checker', 'e_proxy', 'C10 C30', [{'OWN': 3, 'TWICE': 1}] + pairs[:2])
    add('proxy', 'e_getattr', 'C01 C03 C04 C30', fasts(range(4)))
    add('proxy', 'e_setattr', 'C01 C04 C30', fasts(range(4)))
    for n in ('compare', 'hash', 'bool'):
        add('proxy', 'e_' + n, 'C05 C30', fasts((0, 1)), fasts(range(4)))
    for n in ('str', 'repr'):
        add('proxy', 'e_' + n, 'C06 C30', fasts((0, 1)), fasts(range(4)))
    add('proxy', 'e_length_hint', 'C04 C30', fasts((0,)))
    add('proxy', 'e_others', 'C02', fasts((0, 1)))
    news = [a + 3 * b + 18 * n for n in range(4) for a in range(3) for b in range(6)]
    add('proxy', 'e_new', 'C07 C30', fasts((0,), [s for s in news if s // 18 == 2 or s % 18 == 0]),
        fasts((0, 1), news))
    for n in ('traverse', 'clear', 'getchecker', 'getobject'):
        add('proxy', 'e_' + n, 'C30' if n in ('traverse', 'clear') else 'C07 C30', fasts((0,)))

    tables = [{'TABLES': t} for t in range(3)]
    add('checker', 'e_check_slot', 'C08 C30', tables)
    add('checker', 'e_check_del', 'C30', tables[2:])
    add('checker', 'e_check', 'C08 C30', [dict(t, SIDE=s) for t in tables for s in (0, 1)])
    add('checker', 'e_check_setattr', 'C09 C30', tables)
    add('checker', 'e_permission_id', 'C08 C30', tables)
    add('checker', 'e_setattr_permission_id', 'C09 C30', tables)
    chains = [{'SEL': s} for s in range(4)] + \
        [{'SEL': 4, 'F1': f} for f in range(5)] + \
        [{'SEL': 4, 'F1': f, 'F2': g} for f in (5, 6) for g in range(5)]
    add('checker', 'e_select', 'C10 C30', chains)
    add('checker', 'e_proxy', 'C10 C30',
        [dict(c, SIDE=s) for c in chains for s in (0, 1)] +
        [{'OWN': o, 'SIDE': s, 'SEL': c} for o in (1, 2, 3, 4) for s in (0, 1) for c in (0, 3)] +
        [{'SIDE': 2}, {'SIDE': 3}])
    add('checker', 'e_init', 'C13 C30',
        [{'TABLES': t, 'SIDE': a + 4 * b + 16 * n} for t in (0, 2) for n in range(4)
         for a in range(4) for b in range(4) if n == 2 or (b == 0 and (n == 1 or a == 0))])
    add('checker', 'e_tables', 'C08 C09 C30', [dict(t, SIDE=s) for t in tables for s in (0, 1)])
    add('checker', 'e_ctraverse', 'C30', tables)
    add('checker', 'e_cclear', 'C30', tables)
    return out


def jobs_for(prop, tier, only=None):
    jobs = []
    for module, entry, props, quick, thorough in _table():
        if prop not in props or (only and only not in entry):
            continue
        for d in quick if tier == 'quick' else thorough:
            jobs.append({'module': module, 'entry': entry, 'defs': d, 'prop': prop})
    return jobs


def name_codes():
    ops = UNARY + BINARY + ['pow', 'matmul']
    names = set()
    for f in ('model.h', 'proxy.c', 'checker.c'):
        with open(os.path.join(HERE, 'cbmc', f)) as t:
            names.update(re.findall(r'\bH_(\w+)', t.read()))
    for o in ops:
        names.update(('__%s__' % o, '__r%s__' % o, '__i%s__' % o))

    def code(s):
        x = 5381
        for c in s.encode():
            x = (x * 33 + c) & 0xffffffff
        return x
    return ''.join('#define H_%s %du\n' % (n, code(n)) for n in sorted(names))


_lock = threading.Lock()
_built = {}
_locks = {}


def _once(key, f):
    with _lock:
        l = _locks.setdefault(key, threading.Lock())
    with l:
        if key not in _built:
            _built[key] = f()
        return _built[key]


def _goto_cc(args, out):
    p = subprocess.run(['goto-cc'] + args + ['-o', out], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode or not os.path.exists(out):
        return None, 'goto-cc: ' + p.stdout[-1500:]
    return out, None


def _include():
    return subprocess.check_output(
        [PY, '-c', 'import sysconfig; print(sysconfig.get_path("include"))'], text=True).strip()


def _parameters(pattern):
    """how many parameters the function named by the first group has"""
    with open(os.path.join(REPO, 'src/zope/security/_proxy.c'), errors='replace') as f:
        src = f.read()
    m = re.search(pattern, src)
    name = re.findall(r'\w+', m.group(1))[-1] if m else 'none'
    d = re.search(r'\b%s\s*\(([^)]*)\)\s*\{' % re.escape(name), src)
    return d.group(1).count(',') + 1 if d else 0


def _shapes():
    """Functions called through a pointer of another shape, as C lets them."""
    out = []
    if _parameters(r'(?:nb_inplace_power\s*=|(?=[\w\s()]+,\s*/\*\s*nb_inplace_power))([\w\s()]+)') == 3:
        out.append('-DIPOW3=1')
    if _parameters(r'"__length_hint__"\s*,\s*([\w\s()]+),') == 1:
        out.append('-DNOARGS1=1')
    return out


def _compile(d, module, defs):
    d = os.path.join(d, 'cbmc')
    os.makedirs(d, exist_ok=True)
    inc = _once('include', _include)

    def codes():
        with open(os.path.join(d, 'codes.h'), 'w') as f:
            f.write(name_codes())
        return True
    _once('codes', codes)
    m = _once(('m', module), lambda: _goto_cc(
        ['-I' + inc, '-I' + os.path.join(REPO, 'include', 'zope.proxy'),
         '-I' + os.path.join(REPO, 'include'), '-c',
         os.path.join(REPO, 'src', 'zope', 'security', MODULES[module])],
        os.path.join(d, module + '.m.o')))
    if m[1]:
        return m
    tag = '-'.join([module] + ['%s%s' % x for x in sorted(defs.items())])
    args = ['-D%s=%s' % x for x in sorted(dict({'FAST': 0, 'SIDE': 0}, **defs).items())]
    if module == 'proxy':
        args += _once('shapes', _shapes)
    h = _once(('h', tag), lambda: _goto_cc(
        ['-I' + inc, '-I' + d, '-I' + os.path.join(HERE, 'cbmc')] + args +
        ['-c', os.path.join(HERE, 'cbmc', module + '.c')], os.path.join(d, tag + '.h.o')))
    if h[1]:
        return h
    return _once(('gb', tag), lambda: _goto_cc(
        [os.path.join(d, module + '.m.o'), os.path.join(d, tag + '.h.o')],
        os.path.join(d, tag + '.gb')))


def _limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def _cbmc(gb, entry, extra, seconds):
    try:
        p = subprocess.run(
            ['cbmc', gb, '--function', entry, '--unwind', str(UNWIND), '--unwinding-assertions',
             '--object-bits', '11', '--slice-formula', '--no-standard-checks',
             '--max-field-sensitivity-array-size', '150', '--json-ui', '--verbosity', '8'] + extra,
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=seconds,
            preexec_fn=_limit)
    except subprocess.TimeoutExpired:
        return None, 'no answer in %d s' % seconds
    text = p.stdout.decode('utf-8', 'replace')
    try:
        return json.loads(text, strict=False), None
    except ValueError:
        return None, 'cbmc stopped: ' + text[-200:].replace('\n', ' ')


def run_job(job, d, tier):
    r = {'problems': [], 'degraded': [], 'queries': 0, 'obligations': 0, 'solver_s': 0.0,
         'exhaustive': True, 'labels': {}, 'covers': {}, 'functions': set(), 'validated': 0,
         'found': [], 'stats': {}}
    tag = job['entry'] + ''.join(' %s=%s' % x for x in sorted(job['defs'].items()))
    t0 = time.time()
    gb, err = _compile(d, job['module'], job['defs'])
    seconds = 200 if tier == 'quick' else 600
    out = None
    if err is None:
        out, err = _cbmc(gb, job['entry'], [], seconds)
    if err is not None:
        r['degraded'].append('%s: %s' % (tag, err))
        r['exhaustive'] = False
        r['stats'] = {'entry': tag, 'error': err[-300:], 'properties': 0, 'steps': 0}
        return r
    bad, n, reached = [], 0, 0
    wit = []
    steps = 0
    for x in out:
        m = x.get('messageText', '')
        s = re.search(r'size of program expression: (\d+) steps', m)
        if s:
            steps = int(s.group(1))
        s = re.search(r'Runtime (?:decision procedure|Solver): ([\d.e-]+)s', m)
        if s:
            r['solver_s'] += float(s.group(1)) if 'Solver' in m else 0
            r['queries'] += 'Solver' in m
        s = re.search(r"no body for (?:function|callee) '?([\w:]+)", m)
        if s:
            r['degraded'].append('%s: the model has no %s' % (tag, s.group(1)))
        for p in x.get('result', ()):
            text = p['description']
            fails = p['status'] != 'SUCCESS'
            if text.startswith('cover: '):
                if fails:
                    reached += 1
                    l = '%s: %s' % (job['entry'], text[7:])
                    r['covers'][l] = r['covers'].get(l, 0) + 1
                    wit.append((text, _choices(p)))
                continue
            if text.startswith('model:') or 'unwinding assertion' in text \
                    or 'recursion' in text or 'function pointer' in text:
                if fails:
                    r['degraded'].append('%s: %s' % (tag, text))
                continue
            ids, _, label = text.partition(': ')
            if job['prop'] not in ids.split():
                continue
            n += 1
            r['labels'][label] = r['labels'].get(label, 0) + 1
            if fails:
                bad.append((text, _choices(p)))
    r['obligations'] = n
    if not reached:
        r['degraded'].append('%s: vacuous, nothing reached' % tag)
    for kind, cases in (('violation', bad[:4]), ('witness', wit)):
        for text, ch in cases:
            r['found'].append({'module': job['module'], 'entry': job['entry'],
                               'defs': job['defs'], 'label': text, 'property': job['prop'],
                               'choices': ch, 'kind': kind})
    r['functions'] = {'%s via %s' % (MODULES[job['module']], job['entry'])}
    r['exhaustive'] = not r['degraded']
    r['stats'] = {'entry': tag, 'properties': n, 'steps': steps, 'covers_reached': reached,
                  'failing': len(bad), 'solver_s': round(r['solver_s'], 2),
                  'wall_s': round(time.time() - t0, 2), 'assumptions': ASSUMED}
    return r


def _value(v):
    if 'data' in v:
        s = re.match(r'-?(0x[0-9a-fA-F]+|\d+)', str(v['data']))
        return int(s.group(0), 0) if s else v['data']
    if 'elements' in v:
        return [_value(e.get('value', {})) for e in v['elements']]
    return None


def _choices(p):
    """the free choices of a counterexample"""
    ch = {}
    for st in p.get('trace', ()):
        l = st.get('lhs', '')
        if st.get('stepType') != 'assignment' or not l.startswith('ch_'):
            continue
        m = re.match(r'(\w+)\[(\d+)l*\]$', l)
        v = _value(st.get('value', {}))
        if m:
            a = ch.setdefault(m.group(1), [])
            if isinstance(a, list):
                k = int(m.group(2))
                a.extend([0] * (k + 1 - len(a)))
                a[k] = v
        elif '[' not in l:
            ch[l] = v
    return ch


def confirm(cf, scratch, src, prop, tier):
    """replay counterexamples, and witnesses of what was reached, on the built extension"""
    res = {'confirmed': {}, 'unconfirmed': [], 'validated': 0, 'diverged': []}
    cases = []
    for j, f in cf:
        for c in f.result()['found']:
            cases.append(dict(c, id=len(cases)))
    if not cases or src is None:
        return res
    # counterexamples first; a few of each kind will do
    seen = {}
    picked = []
    for c in sorted(cases, key=lambda c: c['kind']):
        k = (c['kind'], c['entry'], c['label'])
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= (6 if c['kind'] == 'violation' else 4 if tier == 'quick' else 40):
            picked.append(c)
    import concurrent.futures
    parts = [picked[k::4] for k in range(4)]
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        outs = list(pool.map(lambda x: replay_cases(x[1], scratch.dir, src, prop, str(x[0])),
                             enumerate(parts)))
    failed = {}
    for out, err in outs:
        if err:
            res['unconfirmed'].append('replay of the C entries: ' + err)
        failed.update(out)
    missed = {}
    for c in picked:
        r = failed.get(c['id'])
        if r is None:
            continue
        if r.get('error'):
            res['diverged'].append('%s: %s' % (c['entry'], r['error'][-300:]))
            continue
        if r['failed']:
            label = r['failed'][0]
            key = '%s/%s' % (c['entry'], re.sub(r'[^A-Za-z0-9_.:-]+', '-', label))
            if key not in res['confirmed']:
                rec = {k: c[k] for k in ('module', 'entry', 'defs', 'choices', 'property')}
                res['confirmed'][key] = dict(
                    rec, kind='cbmc', found_by=c['kind'], label=c['label'], modes=['c'],
                    detail='%s: %s%s' % (c['entry'], label, r.get('how', '')))
            missed[c['entry'], c['label']] = None
        elif c['kind'] == 'witness':
            res['validated'] += 1
        else:
            missed.setdefault((c['entry'], c['label']), c)
    for (entry, label), c in missed.items():
        if c is not None:
            res['unconfirmed'].append(
                '%s: counterexample to %r did not reproduce on the real code %s' % (
                    entry, label, json.dumps(c['choices'])[:300]))
    return res


def replay_cases(cases, d, src, prop, tag, seconds=240):
    """results by id; the interpreter's death is a result, too"""
    jf = os.path.join(d, 'crep-%s.json' % tag)
    of = os.path.join(d, 'crep-%s.out' % tag)
    res, start, end = {}, 0, time.time() + seconds
    while start < len(cases):
        with open(jf, 'w') as f:
            json.dump({'src': src, 'prop': prop, 'cases': cases, 'start': start}, f)
        open(of, 'w').close()
        try:
            p = subprocess.run([PY, os.path.join(HERE, 'lib', 'creplay.py'), jf, of],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors='replace', timeout=max(5, end - time.time()),
                               env=dict(os.environ, PYTHONHASHSEED='0'))
            rc, text = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            rc, text = 'timeout', ''
        current = None
        for line in open(of):
            x = json.loads(line)
            if 'where' in x:
                if not x['where'].startswith(src):
                    return res, 'wrong module ' + x['where']
            elif x.get('begin'):
                current = x['id']
            else:
                res[x['id']] = x
                current = None
        if rc == 0:
            break
        if current is None or rc == 'timeout':
            return res, 'stopped (%s): %s' % (rc, text[-500:])
        crash = isinstance(rc, int) and rc < 0
        res[current] = {'id': current, 'failed': [
            '%s C30: the interpreter died of signal %d' % (prop, -rc)] if crash else [],
            'error': '' if crash else text[-500:]}
        start = [c['id'] for c in cases].index(current) + 1
    return res, None


def replay_file(d, path):
    import check
    scratch = check.Scratch()
    try:
        src = scratch.build()
        case = dict({k: d[k] for k in ('module', 'entry', 'defs', 'choices')},
                    id=0, kind='violation')
        out, err = replay_cases([case], scratch.dir, src, d['property'], 'r')
        print(json.dumps(out.get(0), indent=1), err or '')
        return 1 if out.get(0, {}).get('failed') else 0
    finally:
        scratch.close()
